// Meshes of planar-faced convex cells and their exact geometry, computed from the raw elements of a mesh.
#ifndef VERIF_GEO_H
#define VERIF_GEO_H
#include "cases.h"
#include <cmath>

namespace geo {
using namespace cases;

struct Affine { double m[3][3], t[3]; };
inline double det(const Affine& a) {
    return a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) - a.m[0][1] * (a.m[1][0] * a.m[2][2] - a.m[1][2] * a.m[2][0]) + a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]);
}
/// A regular integer map; in 2D the third coordinate stays.
inline Affine genMap(Ctx& c, unsigned D, bool keepOrientation) {
    Affine a;
    for (;;) {
        for (unsigned i = 0; i < 3; i++) {
            a.t[i] = i < D ? (double)c.range(0, 40, "shift") - 20 : 0;
            for (unsigned j = 0; j < 3; j++) a.m[i][j] = i == j ? 1 : 0;
        }
        size_t kind = c.pick(4, "map");
        if (kind == 0) return a;
        for (unsigned i = 0; i < D; i++) for (unsigned j = 0; j < D; j++) {
            if (kind == 1) a.m[i][j] = i == j ? (double)c.range(1, 5, "scale") : 0;
            else if (kind == 2) a.m[i][j] += i != j && c.chance(1, 3, "shear") ? (double)c.range(-2, 2, "amount") : 0;
            else a.m[i][j] += (double)c.range(-2, 2, "entry");
        }
        double d = det(a);
        if (d == 0 || (keepOrientation && d < 0)) { if (c.pick(4, "give up") == 0) { for (unsigned i = 0; i < 3; i++) for (unsigned j = 0; j < 3; j++) a.m[i][j] = i == j; return a; } continue; }
        return a;
    }
}
/// ... in drawn units
inline Affine genAffine(Ctx& c, unsigned D, bool keepOrientation) {
    Affine a = genMap(c, D, keepOrientation);
    static const double units[] = {16, 1.0 / 64, 1.0 / (1 << 28), 1 << 28};
    double unit = c.chance(1, 3, "unit") ? units[c.pick(4, "which unit")] : 1;
    for (unsigned i = 0; i < D; i++) { a.t[i] *= unit; for (unsigned j = 0; j < D; j++) a.m[i][j] *= unit; }
    return a;
}
inline Pt mapped(const Affine& a, const Pt& p) {
    Pt r;
    for (int i = 0; i < 3; i++) r[i] = a.m[i][0] * p[0] + a.m[i][1] * p[1] + a.m[i][2] * p[2] + a.t[i];
    return r;
}
struct GeoCase { int fmt; std::string text; double volume; size_t cells; bool ccw; bool bumpy = false; };

struct Grid {
    std::vector<double> x[3];
    size_t n[3];
    explicit Grid(Ctx& c, unsigned D, size_t maxN) {
        for (unsigned k = 0; k < 3; k++) {
            n[k] = k < D ? 1 + c.pick(maxN, "grid size") : 0;
            double v = 0;
            for (size_t i = 0; i <= n[k]; i++) { x[k].push_back(v); v += 2.0 * (double)c.range(1, 4, "spacing"); }
        }
    }
    size_t node(size_t i, size_t j, size_t k) const { return (i * (n[1] + 1) + j) * (n[2] + 1) + k; }
};
inline size_t renumber(Ctx& c, std::vector<Pt>& pts, std::vector<size_t>& perm) {
    perm.resize(pts.size());
    for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
    if (c.chance(1, 2, "permute vertices")) for (size_t i = perm.size(); i > 1; i--) std::swap(perm[i - 1], perm[c.pick(i, "vertex")]);
    std::vector<Pt> q(pts.size());
    for (size_t i = 0; i < perm.size(); i++) q[perm[i]] = pts[i];
    pts = q;
    return perm.size();
}
/// 3D: boxes, some removed, split into wedges or pyramids or merged; as FPMA (anything) or VTK (boxes, wedges, pyramids that fit).
inline GeoCase genGeo3(Ctx& c, size_t maxN = 3) {
    Grid g(c, 3, maxN);
    Affine a = genMap(c, 3, false);
    std::vector<Pt> pts;
    for (size_t i = 0; i <= g.n[0]; i++) for (size_t j = 0; j <= g.n[1]; j++) for (size_t k = 0; k <= g.n[2]; k++) pts.push_back(Pt{{g.x[0][i], g.x[1][j], g.x[2][k]}});
    bool poly = c.chance(1, 2, "polyhedra");
    size_t N = g.n[0] * g.n[1] * g.n[2];
    std::vector<bool> there(N, true);
    if (c.chance(1, 3, "holes")) for (size_t i = 0; i < N; i++) there[i] = !c.chance(1, 4, "removed");
    auto id = [&](size_t i, size_t j, size_t k) { return (i * g.n[1] + j) * g.n[2] + k; };
    // diagonal of the quads of each box: key sorted corners -> diagonal (0 none)
    std::map<std::vector<size_t>, int> diag;
    auto key = [](const Cycle& q) { std::vector<size_t> s(q.begin(), q.end()); std::sort(s.begin(), s.end()); return s; };
    std::vector<std::vector<Cycle>> cells;          // polyhedra
    std::vector<Cell> native;                       // VTK cells
    double volume = 0;
    bool any = false;
    for (auto t : there) any = any || t;
    if (!any) there[0] = true;
    struct Box { size_t v[8]; int split; };         // v: x fastest: v[a + 2b + 4c]
    std::vector<Box> boxes;
    std::vector<std::array<size_t, 3>> at;
    std::vector<int> colSplit(g.n[0] * g.n[1]);
    bool columns = !poly && c.chance(1, 2, "wedge columns");
    for (auto& s : colSplit) s = columns ? (int)c.pick(3, "column") : 0;
    for (size_t i = 0; i < g.n[0]; i++) for (size_t j = 0; j < g.n[1]; j++) for (size_t k = 0; k < g.n[2]; k++) if (there[id(i, j, k)]) {
        Box b;
        for (int e = 0; e < 8; e++) b.v[e] = g.node(i + (e & 1), j + (e >> 1 & 1), k + (e >> 2));
        b.split = poly ? (int)c.pick(8, "split") : colSplit[i * g.n[1] + j] ? colSplit[i * g.n[1] + j] + 10 : c.chance(1, 4, "pyramids") && !columns ? 7 : 0;
        volume += (g.x[0][i + 1] - g.x[0][i]) * (g.x[1][j + 1] - g.x[1][j]) * (g.x[2][k + 1] - g.x[2][k]);
        boxes.push_back(b);
        at.push_back({{i, j, k}});
    }
    // quads of a box: -x +x -y +y -z +z, as cycles
    auto quad = [](const Box& b, int f) {
        static const int q[6][4] = {{0, 2, 6, 4}, {1, 3, 7, 5}, {0, 1, 5, 4}, {2, 3, 7, 6}, {0, 1, 3, 2}, {4, 5, 7, 6}};
        Cycle r; for (int i = 0; i < 4; i++) r.push_back(b.v[q[f][i]]); return r;
    };
    if (poly) {
        // wedge splits fix the diagonals of two opposite quads
        for (auto& b : boxes) if (b.split >= 1 && b.split <= 6) {
            int axis = (b.split - 1) / 2, d = 1 + (b.split - 1) % 2;
            Cycle q0 = quad(b, axis * 2), q1 = quad(b, axis * 2 + 1);
            int& d0 = diag[key(q0)]; int& d1 = diag[key(q1)];
            if ((d0 && d0 != d) || (d1 && d1 != d)) b.split = 0; else { d0 = d; d1 = d; }
        }
        auto side = [&](const Box& b, int f) { // the faces of one side
            Cycle q = quad(b, f);
            auto it = diag.find(key(q));
            int d = it == diag.end() ? 0 : it->second;
            std::vector<Cycle> r;
            if (!d) r.push_back(q);
            else if (d == 1) { r.push_back(Cycle{q[0], q[1], q[2]}); r.push_back(Cycle{q[0], q[2], q[3]}); }
            else { r.push_back(Cycle{q[0], q[1], q[3]}); r.push_back(Cycle{q[1], q[2], q[3]}); }
            return r;
        };
        // merge pairs along z: the upper box joins the lower one
        std::vector<bool> done(boxes.size(), false);
        for (size_t n = 0; n < boxes.size(); n++) {
            if (done[n]) continue;
            Box& b = boxes[n];
            if (b.split == 0 && n + 1 < boxes.size() && boxes[n + 1].split == 0 && at[n + 1][0] == at[n][0] && at[n + 1][1] == at[n][1] && at[n + 1][2] == at[n][2] + 1 && c.chance(1, 3, "merge")) {
                std::vector<Cycle> fs;
                for (int f = 0; f < 6; f++) {
                    if (f != 5) for (auto& s : side(b, f)) fs.push_back(s);
                    if (f != 4) for (auto& s : side(boxes[n + 1], f)) fs.push_back(s);
                }
                cells.push_back(fs);
                done[n + 1] = true;
            } else if (b.split == 7) {
                size_t m = pts.size();
                Pt q;
                for (int k = 0; k < 3; k++) q[k] = (pts[b.v[0]][k] + pts[b.v[7]][k]) / 2;
                pts.push_back(q);
                for (int f = 0; f < 6; f++) {
                    std::vector<Cycle> fs = side(b, f);
                    Cycle q4 = quad(b, f);
                    for (int i = 0; i < 4; i++) fs.push_back(Cycle{q4[i], q4[(i + 1) % 4], m});
                    cells.push_back(fs);
                }
            } else if (b.split >= 1 && b.split <= 6) {
                int axis = (b.split - 1) / 2, d = 1 + (b.split - 1) % 2;
                Cycle q0 = quad(b, axis * 2), q1 = quad(b, axis * 2 + 1);
                size_t o = d == 1 ? 0 : 1;           // the diagonal goes from o to o+2
                for (int part = 0; part < 2; part++) {
                    size_t i0 = o, i1 = part ? (o + 3) % 4 : o + 1, i2 = (o + 2) % 4;
                    std::vector<Cycle> fs;
                    fs.push_back(Cycle{q0[i0], q0[i1], q0[i2]});
                    fs.push_back(Cycle{q1[i0], q1[i1], q1[i2]});
                    fs.push_back(Cycle{q0[i0], q0[i2], q1[i2], q1[i0]});       // the cut
                    for (int f = 0; f < 6; f++) if (f / 2 != axis) {
                        Cycle s = quad(b, f);
                        auto has = [&](size_t v) { return std::find(s.begin(), s.end(), v) != s.end(); };
                        if (has(q0[i1])) for (auto& x : side(b, f)) fs.push_back(x);
                    }
                    cells.push_back(fs);
                }
            } else {
                std::vector<Cycle> fs;
                for (int f = 0; f < 6; f++) for (auto& s : side(b, f)) fs.push_back(s);
                cells.push_back(fs);
            }
        }
    } else {
        for (auto& b : boxes) {
            const size_t* v = b.v;
            if (b.split == 11) { native.push_back({VTK_WEDGE, {v[0], v[1], v[3], v[4], v[5], v[7]}}); native.push_back({VTK_WEDGE, {v[0], v[3], v[2], v[4], v[7], v[6]}}); }
            else if (b.split == 12) { native.push_back({VTK_WEDGE, {v[0], v[1], v[2], v[4], v[5], v[6]}}); native.push_back({VTK_WEDGE, {v[1], v[3], v[2], v[5], v[7], v[6]}}); }
            else if (b.split == 7) {
                size_t m = pts.size();
                Pt q;
                for (int k = 0; k < 3; k++) q[k] = (pts[v[0]][k] + pts[v[7]][k]) / 2;
                pts.push_back(q);
                for (int f = 0; f < 6; f++) { Cycle q4 = quad(b, f); native.push_back({VTK_PYRAMID, {q4[0], q4[1], q4[2], q4[3], m}}); }
            } else native.push_back({VTK_HEXA, {v[0], v[1], v[3], v[2], v[4], v[5], v[7], v[6]}});
        }
    }
    // nodes inside of the domain move: the quads around them are not planar any more
    bool bumpy = N > 1 && boxes.size() == N && c.chance(1, 3, "bumpy");
    if (bumpy) for (size_t i = 1; i < g.n[0]; i++) for (size_t j = 1; j < g.n[1]; j++) for (size_t k = 1; k < g.n[2]; k++)
        for (int d = 0; d < 3; d++) pts[g.node(i, j, k)][d] += 0.0625 * (double)c.range(-2, 2, "bump");
    for (auto& p : pts) p = mapped(a, p);
    std::vector<size_t> perm;
    renumber(c, pts, perm);
    GeoCase k;
    k.bumpy = bumpy;
    k.volume = volume * std::fabs(det(a));
    k.ccw = true;
    if (poly) {
        for (auto& fs : cells) for (auto& f : fs) for (auto& v : f) v = perm[v];
        if (c.chance(1, 2, "shuffle cells")) for (size_t i = cells.size(); i > 1; i--) std::swap(cells[i - 1], cells[c.pick(i, "cell")]);
        PolyMesh m = toPoly(c, cells, pts);
        k.fmt = FPMA3;
        k.text = fpmaText(c, m);
        k.cells = cells.size();
    } else {
        Mesh3 m;
        m.pts = pts;
        m.cells = native;
        for (auto& x : m.cells) for (auto& v : x.v) v = perm[v];
        if (c.chance(1, 2, "shuffle cells")) for (size_t i = m.cells.size(); i > 1; i--) std::swap(m.cells[i - 1], m.cells[c.pick(i, "cell")]);
        k.fmt = VTK3;
        VtkStyle s(c);
        k.text = vtkText(c, m, s);
        k.cells = m.cells.size();
    }
    return k;
}
/// 2D: rectangles, some removed, split into triangles or with further vertices on their sides.
inline GeoCase genGeo2(Ctx& c, size_t maxN = 5) {
    Grid g(c, 2, maxN);
    GeoCase r;
    r.ccw = c.chance(3, 4, "counter-clockwise");
    Affine a = genMap(c, 2, true);
    std::vector<Pt> pts;
    for (size_t i = 0; i <= g.n[0]; i++) for (size_t j = 0; j <= g.n[1]; j++) pts.push_back(Pt{{g.x[0][i], g.x[1][j], 0}});
    double area = 0;
    Mesh2 m;
    bool holes = c.chance(1, 3, "holes");
    auto add = [&](Cycle v) { m.cells.push_back({v.size() == 3 ? VTK_TRI : v.size() == 4 ? VTK_QUAD : VTK_POLY, v}); };
    for (size_t i = 0; i < g.n[0]; i++) for (size_t j = 0; j < g.n[1]; j++) {
        if (holes && (i || j) && c.chance(1, 4, "removed")) continue;
        area += (g.x[0][i + 1] - g.x[0][i]) * (g.x[1][j + 1] - g.x[1][j]);
        size_t q[4] = {g.node(i, j, 0), g.node(i + 1, j, 0), g.node(i + 1, j + 1, 0), g.node(i, j + 1, 0)};
        switch (c.pick(6, "split")) {
        case 1: add({q[0], q[1], q[2]}); add({q[0], q[2], q[3]}); break;
        case 2: add({q[0], q[1], q[3]}); add({q[1], q[2], q[3]}); break;
        case 3: case 4: { // around an inner point
            size_t p = pts.size();
            pts.push_back(Pt{{(g.x[0][i] + g.x[0][i + 1]) / 2, (g.x[1][j] + g.x[1][j + 1]) / 2, 0}});
            for (int e = 0; e < 4; e++) add({q[e], q[(e + 1) % 4], p});
            break;
        }
        default: add({q[0], q[1], q[2], q[3]});
        }
    }
    // merge a rectangle with the next one of the same column: a polygon with vertices inside of its sides
    for (auto& p : pts) p = mapped(a, p);
    std::vector<size_t> perm;
    m.pts = pts;
    renumber(c, m.pts, perm);
    for (auto& x : m.cells) {
        for (auto& v : x.v) v = perm[v];
        std::rotate(x.v.begin(), x.v.begin() + c.pick(x.v.size(), "first vertex"), x.v.end());
        if (!r.ccw && c.chance(1, 2, "clockwise")) std::reverse(x.v.begin(), x.v.end());
    }
    // cut corners: the quad and a triangle glued outside make a pentagon
    if (c.chance(1, 2, "roofs")) {
        std::map<Edge, int> uses;
        for (auto& x : m.cells) for (size_t i = 0; i < x.v.size(); i++) uses[mkEdge(x.v[i], x.v[(i + 1) % x.v.size()])]++;
        size_t have = m.cells.size();
        std::set<size_t> used;
        for (size_t n = 0; n < have; n++) {
            Cell& x = m.cells[n];
            if (x.v.size() != 4 || !c.chance(1, 3, "roof")) continue;
            for (size_t i = 0; i < 4; i++) {
                size_t p = x.v[i], q = x.v[(i + 1) % 4];
                if (uses[mkEdge(p, q)] != 1) continue;
                // midpoint of the side pushed out by an eighth of the side behind it
                size_t s = x.v[(i + 3) % 4];
                Pt t;
                for (int k = 0; k < 2; k++) t[k] = (m.pts[p][k] + m.pts[q][k]) / 2 + (m.pts[p][k] - m.pts[s][k]) / 8;
                t[2] = 0;
                double ux = m.pts[q][0] - m.pts[p][0], uy = m.pts[q][1] - m.pts[p][1], wx = m.pts[p][0] - m.pts[s][0], wy = m.pts[p][1] - m.pts[s][1];
                area += std::fabs(ux * wy - uy * wx) / 16 / std::fabs(det(a));
                x.v.insert(x.v.begin() + i + 1, m.pts.size());
                x.type = VTK_POLY;
                m.pts.push_back(t);
                break;
            }
        }
    }
    if (c.chance(1, 2, "shuffle cells")) for (size_t i = m.cells.size(); i > 1; i--) std::swap(m.cells[i - 1], m.cells[c.pick(i, "cell")]);
    r.fmt = VTK2;
    r.volume = area * std::fabs(det(a));
    r.cells = m.cells.size();
    VtkStyle s(c);
    s.number = 0;
    r.text = vtkText(c, m, s);
    return r;
}

// ------------------------------------------------------------ geometry of a mesh, from its raw elements
struct V3 {
    double x = 0, y = 0, z = 0;
    V3() {}
    V3(double a, double b, double c) : x(a), y(b), z(c) {}
    V3 operator+(const V3& o) const { return V3(x + o.x, y + o.y, z + o.z); }
    V3 operator-(const V3& o) const { return V3(x - o.x, y - o.y, z - o.z); }
    V3 operator*(double s) const { return V3(x * s, y * s, z * s); }
    double dot(const V3& o) const { return x * o.x + y * o.y + z * o.z; }
    V3 cross(const V3& o) const { return V3(y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x); }
    double norm() const { return std::sqrt(dot(*this)); }
};
template <typename R> V3 toV(const Vector<3, R>& v) { return V3((double)v[0], (double)v[1], (double)v[2]); }
template <typename R> V3 toV(const Vector<2, R>& v) { return V3((double)v[0], (double)v[1], 0); }

struct Geometry {
    std::vector<V3> edgeC, faceC, faceT, cellC, cellT;     // default and tessellated centres
    std::vector<double> edgeM, faceM, cellM;
    std::vector<V3> normal, normalT;                        // of faces, from left to right; mean over the triangles
    std::vector<V3> inside;                                 // a point inside of each cell
    double scale = 0;
};
template <typename MT> std::vector<size_t> facesOfCell(const MT& m, size_t cell) {
    std::vector<size_t> r;
    size_t f = m.getCells()[cell].getBoundaryElementIndex(), first = f;
    do { r.push_back(f); f = m.getFaces()[f].getNextBElem(cell); } while (f != first && r.size() <= m.getFaces().size());
    return r;
}
/// The vertices of a face in their order along its boundary
template <typename MT> std::vector<size_t> polygon(const MT& m, size_t face) {
    std::vector<Edge> e;
    const auto& sub = m.template getElements<2>()[face].getSubelements();
    for (size_t i = 0; i < sub.size(); i++) e.push_back(Edge(m.getEdges()[sub[i]].getVertexAIndex(), m.getEdges()[sub[i]].getVertexBIndex()));
    std::vector<size_t> v;
    std::vector<bool> used(e.size(), false);
    used[0] = true;
    v.push_back(e[0].first);
    size_t cur = e[0].second;
    while (v.size() < e.size()) {
        v.push_back(cur);
        bool found = false;
        for (size_t i = 0; i < e.size() && !found; i++) if (!used[i] && (e[i].first == cur || e[i].second == cur)) { used[i] = true; cur = e[i].first == cur ? e[i].second : e[i].first; found = true; }
        if (!found) break;
    }
    return v;
}
template <typename MT> void edgesOf(const MT& m, Geometry& g) {
    for (auto& e : m.getEdges()) {
        V3 a = toV(m.getVertices()[e.getVertexAIndex()]), b = toV(m.getVertices()[e.getVertexBIndex()]);
        g.edgeC.push_back((a + b) * 0.5);
        g.edgeM.push_back((a - b).norm());
    }
    for (auto& v : m.getVertices()) g.scale = std::max(g.scale, toV(v).norm());
}
template <unsigned D> struct Compute;
template <> struct Compute<2> {
    template <typename MT> static Geometry of(const MT& m, int stored = 0) {
        (void)stored;
        Geometry g;
        edgesOf(m, g);
        g.faceC = g.faceT = g.edgeC;
        g.faceM = g.edgeM;
        for (size_t i = 0; i < m.getCells().size(); i++) {
            V3 c, p;
            double area = 0;
            auto es = facesOfCell(m, i);
            for (size_t e : es) { c = c + g.edgeC[e]; p = p + toV(m.getVertices()[m.getEdges()[e].getVertexAIndex()]) + toV(m.getVertices()[m.getEdges()[e].getVertexBIndex()]); }
            c = c * (1.0 / es.size());
            p = p * (0.5 / es.size());
            for (size_t e : es) {
                V3 a = toV(m.getVertices()[m.getEdges()[e].getVertexAIndex()]), b = toV(m.getVertices()[m.getEdges()[e].getVertexBIndex()]);
                area += std::fabs((a - p).cross(b - p).z) / 2;
            }
            g.cellC.push_back(c);
            g.cellT.push_back(c);
            g.cellM.push_back(area);
            g.inside.push_back(p);
        }
        for (auto& e : m.getEdges()) {
            V3 a = toV(m.getVertices()[e.getVertexAIndex()]), b = toV(m.getVertices()[e.getVertexBIndex()]), d = b - a;
            V3 n(d.y, -d.x, 0);
            n = n * (1 / n.norm());
            V3 out = e.getCellLeftIndex() >= m.getCells().size() ? g.inside[e.getCellRightIndex()] - a : a - g.inside[e.getCellLeftIndex()];
            if (n.dot(out) < 0) n = n * -1;
            g.normal.push_back(n);
        }
        return g;
    }
};
template <> struct Compute<3> {
    /// stored: how the centres stored in the mesh were computed (2: tessellated)
    template <typename MT> static Geometry of(const MT& m, int stored = 0) {
        Geometry g;
        edgesOf(m, g);
        std::vector<std::vector<size_t>> poly;
        auto at = [&](size_t v) { return toV(m.getVertices()[v]); };
        for (size_t f = 0; f < m.getFaces().size(); f++) {
            auto p = polygon(m, f);
            poly.push_back(p);
            V3 c;
            const auto& sub = m.getFaces()[f].getSubelements();
            for (size_t i = 0; i < sub.size(); i++) c = c + g.edgeC[sub[i]];
            c = c * (1.0 / sub.size());
            g.faceC.push_back(c);
            // the triangles around the mean point
            V3 n, t;
            double area = 0;
            for (size_t i = 0; i < p.size(); i++) {
                V3 a = at(p[i]), b = at(p[(i + 1) % p.size()]), x = (a - c).cross(b - c);
                n = n + x;
                t = t + (c + a + b) * (x.norm() / 6);
                area += x.norm() / 2;
            }
            g.normal.push_back(n * (1 / n.norm()));
            g.faceT.push_back(t * (1 / area));
        }
        auto& fc = stored == 2 ? g.faceT : g.faceC;
        for (size_t f = 0; f < poly.size(); f++) {
            double area = 0;
            for (size_t i = 0; i < poly[f].size(); i++) area += (at(poly[f][i]) - fc[f]).cross(at(poly[f][(i + 1) % poly[f].size()]) - fc[f]).norm() / 2;
            g.faceM.push_back(area);
        }
        for (size_t i = 0; i < m.getCells().size(); i++) {
            V3 c, t, p;
            size_t np = 0;
            double vol = 0;
            auto fs = facesOfCell(m, i);
            for (size_t f : fs) { c = c + g.faceC[f]; t = t + g.faceT[f]; for (size_t v : poly[f]) { p = p + at(v); np++; } }
            c = c * (1.0 / fs.size());
            t = t * (1.0 / fs.size());
            V3 o = stored == 2 ? t : c;
            for (size_t f : fs) for (size_t k = 0; k < poly[f].size(); k++)
                vol += std::fabs((at(poly[f][k]) - o).cross(at(poly[f][(k + 1) % poly[f].size()]) - o).dot(fc[f] - o)) / 6;
            g.cellC.push_back(c);
            g.cellT.push_back(t);
            g.cellM.push_back(vol);
            g.inside.push_back(p * (1.0 / np));
        }
        for (size_t f = 0; f < m.getFaces().size(); f++) {
            auto& face = m.getFaces()[f];
            size_t l = face.getCellLeftIndex(), r = face.getCellRightIndex();
            bool noLeft = l >= m.getCells().size();
            V3 o = at(poly[f][0]);
            V3 out = noLeft ? g.inside[r] - o : o - g.inside[l];
            if (g.normal[f].dot(out) < 0) g.normal[f] = g.normal[f] * -1;
            V3 sum, centre = (stored == 2 ? g.cellT : g.cellC)[noLeft ? r : l];
            for (size_t k = 0; k < poly[f].size(); k++) {
                V3 x = (at(poly[f][k]) - fc[f]).cross(at(poly[f][(k + 1) % poly[f].size()]) - fc[f]);
                if ((x.dot(fc[f] - centre) < 0) != noLeft) x = x * -1;
                sum = sum + x * 0.5;
            }
            g.normalT.push_back(sum * (1 / g.faceM[f]));
        }
        return g;
    }
};
} // namespace geo
#endif
