// Reference model of meshes: generators, file texts, independent parsers and topology.
// Nothing in this file uses GTMesh.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include "sim.h"
#include <algorithm>
#include <unordered_map>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace model {

typedef std::array<double, 3> Pt;
typedef std::vector<size_t> Cycle;                       // vertices of a polygon in order
typedef std::pair<size_t, size_t> Edge;                  // (min, max)
typedef std::vector<Edge> FaceKey;                       // sorted edges: identifies a face

enum { VTK_TRI = 5, VTK_POLY = 7, VTK_QUAD = 9, VTK_TETRA = 10, VTK_HEXA = 12, VTK_WEDGE = 13, VTK_PYRAMID = 14 };

inline Edge mkEdge(size_t a, size_t b) { return a < b ? Edge(a, b) : Edge(b, a); }
inline FaceKey faceKey(const Cycle& f) {
    FaceKey k;
    for (size_t i = 0; i < f.size(); i++) k.push_back(mkEdge(f[i], f[(i + 1) % f.size()]));
    std::sort(k.begin(), k.end());
    return k;
}
inline std::string str(const FaceKey& k) {
    std::string s;
    for (auto& e : k) s += "(" + std::to_string(e.first) + "," + std::to_string(e.second) + ")";
    return s;
}

/// A cell of the kinds VTK knows.
struct Cell { int type; Cycle v; };

inline std::vector<Cycle> localFaces(int type) {
    switch (type) {
    case VTK_TETRA: return {{0,1,2},{0,1,3},{1,2,3},{0,2,3}};
    case VTK_PYRAMID: return {{0,1,2,3},{0,1,4},{1,2,4},{2,3,4},{3,0,4}};
    case VTK_WEDGE: return {{0,1,2},{3,4,5},{0,1,4,3},{1,2,5,4},{2,0,3,5}};
    case VTK_HEXA: return {{0,1,2,3},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}};
    }
    return {};
}
inline size_t vertexCount(int type) { return type == VTK_TETRA ? 4 : type == VTK_PYRAMID ? 5 : type == VTK_WEDGE ? 6 : 8; }
inline int typeOfCount(size_t n) { return n == 4 ? VTK_TETRA : n == 5 ? VTK_PYRAMID : n == 6 ? VTK_WEDGE : VTK_HEXA; }

inline std::vector<Cycle> facesOf(const Cell& c) {
    std::vector<Cycle> r = localFaces(c.type);
    for (auto& f : r) for (auto& i : f) i = c.v[i];
    return r;
}

struct Mesh3 { std::vector<Pt> pts; std::vector<Cell> cells; };
struct Mesh2 { std::vector<Pt> pts; std::vector<Cell> cells; bool consistent = true; };
/// General polyhedral mesh (FPMA)
struct PolyMesh { std::vector<Pt> pts; std::vector<Cycle> faces; std::vector<std::vector<size_t>> cells; };

/// Topology of a mesh in terms of vertex indexes; independent of numbering of edges and faces.
struct Topo {
    std::vector<Pt> pts;
    std::set<Edge> edges;
    std::map<FaceKey, std::vector<size_t>> faceCells;    // sorted cells of each face (2D: faces are single edges)
    std::vector<std::set<FaceKey>> cellFaces;
    std::vector<int> types;                              // VTK codes normalised (0 when unknown)
};
inline std::string firstDifference(const Topo& a, const Topo& b) {
    std::ostringstream o;
    if (a.pts.size() != b.pts.size()) { o << "number of vertices " << a.pts.size() << " vs " << b.pts.size(); return o.str(); }
    for (size_t i = 0; i < a.pts.size(); i++) if (a.pts[i] != b.pts[i]) {
        o << "vertex " << i << ": " << a.pts[i][0] << "," << a.pts[i][1] << "," << a.pts[i][2] << " vs " << b.pts[i][0] << "," << b.pts[i][1] << "," << b.pts[i][2];
        return o.str();
    }
    if (a.cellFaces.size() != b.cellFaces.size()) { o << "number of cells " << a.cellFaces.size() << " vs " << b.cellFaces.size(); return o.str(); }
    if (a.edges != b.edges) {
        for (auto& e : a.edges) if (!b.edges.count(e)) { o << "edge " << e.first << "-" << e.second << " only in the first"; return o.str(); }
        for (auto& e : b.edges) if (!a.edges.count(e)) { o << "edge " << e.first << "-" << e.second << " only in the second"; return o.str(); }
    }
    for (auto& f : a.faceCells) {
        auto it = b.faceCells.find(f.first);
        if (it == b.faceCells.end()) { o << "face " << str(f.first) << " only in the first"; return o.str(); }
        if (it->second != f.second) { o << "cells of face " << str(f.first) << " differ"; return o.str(); }
    }
    if (a.faceCells.size() != b.faceCells.size()) { o << "number of faces " << a.faceCells.size() << " vs " << b.faceCells.size(); return o.str(); }
    for (size_t i = 0; i < a.cellFaces.size(); i++) if (a.cellFaces[i] != b.cellFaces[i]) { o << "faces of cell " << i << " differ"; return o.str(); }
    if (a.types != b.types) {
        for (size_t i = 0; i < a.types.size() && i < b.types.size(); i++) if (a.types[i] != b.types[i]) { o << "type of cell " << i << ": " << a.types[i] << " vs " << b.types[i]; return o.str(); }
        o << "number of cell types " << a.types.size() << " vs " << b.types.size();
        return o.str();
    }
    return "";
}
inline void addCell(Topo& t, size_t ci, const std::vector<Cycle>& faces) {
    if (t.cellFaces.size() <= ci) t.cellFaces.resize(ci + 1);
    for (auto& f : faces) {
        FaceKey k = faceKey(f);
        for (auto& e : k) t.edges.insert(e);
        t.faceCells[k].push_back(ci);
        t.cellFaces[ci].insert(k);
    }
}
inline Topo topo(const Mesh3& m) {
    Topo t;
    t.pts = m.pts;
    t.cellFaces.resize(m.cells.size());
    for (size_t i = 0; i < m.cells.size(); i++) { addCell(t, i, facesOf(m.cells[i])); t.types.push_back(m.cells[i].type); }
    return t;
}
inline Topo topo(const PolyMesh& m) {
    Topo t;
    t.pts = m.pts;
    t.cellFaces.resize(m.cells.size());
    for (auto& f : m.faces) { FaceKey k = faceKey(f); for (auto& e : k) t.edges.insert(e); t.faceCells[k]; }
    for (size_t i = 0; i < m.cells.size(); i++) {
        std::vector<Cycle> fs;
        for (size_t f : m.cells[i]) fs.push_back(m.faces[f]);
        addCell(t, i, fs);
        t.types.push_back(0);
    }
    return t;
}
inline Topo topo(const Mesh2& m) {
    Topo t;
    t.pts = m.pts;
    for (auto& p : t.pts) p[2] = 0;
    t.cellFaces.resize(m.cells.size());
    for (size_t i = 0; i < m.cells.size(); i++) {
        const Cycle& v = m.cells[i].v;
        for (size_t j = 0; j < v.size(); j++) {
            FaceKey k(1, mkEdge(v[j], v[(j + 1) % v.size()]));
            t.edges.insert(k[0]);
            t.faceCells[k].push_back(i);
            t.cellFaces[i].insert(k);
        }
        t.types.push_back(m.cells[i].type);
    }
    return t;
}

// ---------------------------------------------------------------- generators
/// Coordinates with a short decimal representation (exact with 6 significant digits).
inline double coord(sim::Ctx& c) {
    static const int mags[] = {8, 80, 800, 8000, 800000};
    int m = mags[c.pick(5, "coordinate magnitude")];
    long k = static_cast<long>(c.pick(2 * m + 1, "coordinate")) - m;
    if (m == 800000) return static_cast<double>(k / 8);     // integers up to 100000
    if (m == 8000) return k / 8 + (k % 2 ? 0.5 : 0.0);      // up to 1000.5
    return k / 8.0;
}
/// the points with a number above 600 are not drawn
inline Pt cheapPoint(size_t i, bool flat) { return Pt{{double(i % 251) / 4, double(i / 251 % 239) / 2, flat ? 0.0 : double(i % 13)}}; }
inline Pt point3(sim::Ctx& c) { double x = coord(c), y = coord(c); return Pt{{x, y, coord(c)}}; }

struct Builder3 {
    std::vector<std::vector<Cycle>> cells;      // faces of each cell (global vertex cycles)
    std::map<FaceKey, int> use;
    std::vector<std::pair<size_t, Cycle>> open; // faces that can be glued: owner, cycle
    size_t nv = 0;
    bool fits(const std::vector<Cycle>& fs) const {
        std::set<FaceKey> own;
        for (auto& f : fs) {
            FaceKey k = faceKey(f);
            if (!own.insert(k).second) return false;
            auto it = use.find(k);
            if (it != use.end() && it->second >= 2) return false;
        }
        // two cells must not share all of their faces
        size_t shared = 0;
        for (auto& k : own) if (use.count(k)) shared++;
        return shared < own.size();
    }
    void add(const std::vector<Cycle>& fs) {
        for (auto& f : fs) {
            FaceKey k = faceKey(f);
            int n = ++use[k];
            if (n == 1) open.push_back({cells.size(), f});
        }
        cells.push_back(fs);
    }
};

inline std::vector<Cycle> prismFaces(size_t n) {
    std::vector<Cycle> r;
    Cycle a, b;
    for (size_t i = 0; i < n; i++) { a.push_back(i); b.push_back(n + i); }
    r.push_back(a); r.push_back(b);
    for (size_t i = 0; i < n; i++) r.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i});
    return r;
}
inline std::vector<Cycle> pyramidFaces(size_t n) {
    std::vector<Cycle> r;
    Cycle a;
    for (size_t i = 0; i < n; i++) a.push_back(i);
    r.push_back(a);
    for (size_t i = 0; i < n; i++) r.push_back({i, (i + 1) % n, n});
    return r;
}

/// Glue cells of the given templates (local faces, number of vertices) together.
/// Returns for each cell the template and its global vertices.
struct Tmpl { int type; size_t nv; std::vector<Cycle> faces; };
inline std::vector<std::pair<size_t, Cycle>> glue(sim::Ctx& c, const std::vector<Tmpl>& tmpl, size_t count, size_t& nv) {
    Builder3 b;
    std::vector<std::pair<size_t, Cycle>> res;
    std::vector<size_t> mask;
    for (size_t i = 0; i < tmpl.size(); i++) if (!c.chance(1, 4, "disable a cell kind")) mask.push_back(i);
    if (mask.empty()) mask.push_back(0);
    for (size_t n = 0; n < count; n++) {
        size_t ti = c.of(mask, "cell kind");
        const Tmpl& t = tmpl[ti];
        Cycle g(t.nv, SIZE_MAX);
        bool placed = false;
        bool attach = n > 0 && !c.chance(1, 10, "separate component");
        if (attach) {
            size_t tries = std::min<size_t>(b.open.size(), 4);
            for (size_t k = 0; k < tries && !placed; k++) {
                auto& of = b.open[b.open.size() - 1 - c.skew(b.open.size(), "open face")];
                if (b.use[faceKey(of.second)] >= 2) continue;
                std::vector<size_t> cand;
                for (size_t f = 0; f < t.faces.size(); f++) if (t.faces[f].size() == of.second.size()) cand.push_back(f);
                if (cand.empty()) continue;
                const Cycle& lf = t.faces[c.of(cand, "local face")];
                size_t rot = c.pick(lf.size(), "rotation");
                bool mir = c.chance(1, 2, "mirror");
                std::fill(g.begin(), g.end(), SIZE_MAX);
                for (size_t i = 0; i < lf.size(); i++) {
                    size_t j = mir ? (rot + lf.size() - i) % lf.size() : (rot + i) % lf.size();
                    g[lf[i]] = of.second[j];
                }
                size_t fresh = b.nv;
                for (auto& x : g) if (x == SIZE_MAX) {
                    size_t cand2 = fresh;
                    if (c.chance(1, 12, "reuse a vertex")) {
                        cand2 = c.pick(b.nv, "reused vertex");
                        if (std::find(g.begin(), g.end(), cand2) != g.end()) cand2 = fresh;
                    }
                    x = cand2;
                    if (cand2 == fresh) fresh++;
                }
                std::vector<Cycle> fs = t.faces;
                for (auto& f : fs) for (auto& i : f) i = g[i];
                if (b.fits(fs)) { b.nv = fresh; b.add(fs); placed = true; }
            }
        }
        if (!placed) {
            for (size_t i = 0; i < t.nv; i++) g[i] = b.nv++;
            std::vector<Cycle> fs = t.faces;
            for (auto& f : fs) for (auto& i : f) i = g[i];
            b.add(fs);
        }
        res.push_back({ti, g});
    }
    nv = b.nv;
    return res;
}

/// Meshes of many elements now and then?
inline bool& largeMeshes() { static bool b = true; return b; }
/// Renumber vertices at random and add unused ones.
inline std::vector<size_t> numbering(sim::Ctx& c, size_t nv, size_t& total) {
    size_t extra = c.chance(1, 6, "unused vertices") ? 1 + c.pick(3, "number of unused") : 0;
    if (largeMeshes() && c.chance(1, 400, "many unused vertices")) extra = c.chance(1, 4, "very many") ? 65530 + c.pick(20, "number of unused") : 200 + c.pick(900, "number of unused");
    total = nv + extra;
    if (extra > 3) { // the used ones come last
        c.probe(extra > 65000 ? "vertex indexes above 65535" : "vertex indexes above 255");
        std::vector<size_t> q(total);
        for (size_t i = 0; i < total; i++) q[i] = total - 1 - i;
        return q;
    }
    std::vector<size_t> p(total);
    for (size_t i = 0; i < total; i++) p[i] = i;
    if (c.chance(1, 2, "permute vertices"))
        for (size_t i = total; i > 1; i--) std::swap(p[i - 1], p[c.pick(i, "permutation")]);
    return p;
}

inline size_t cellCount(sim::Ctx& c, size_t small, size_t big) {
    if (c.chance(1, 40, "big mesh")) return 1 + c.pick(big, "cells");
    return 1 + c.skew(small, "cells");
}

/// regular grid split into hexahedra, wedges, tetrahedra or pyramids
inline Mesh3 gridMesh(sim::Ctx& c, size_t maxN) {
    Mesh3 m;
    size_t n[3];
    for (auto& x : n) x = 1 + c.pick(maxN, "grid size");
    if (largeMeshes() && c.chance(1, 40, "long grid")) { n[c.pick(3, "direction")] = 40 + c.pick(maxN > 2 ? 260 : 60, "grid length"); c.probe("long grid"); }
    double h[3];
    for (auto& x : h) x = (1 + c.pick(16, "grid step")) / 4.0;
    auto id = [&](size_t i, size_t j, size_t k) { return (k * (n[1] + 1) + j) * (n[0] + 1) + i; };
    for (size_t k = 0; k <= n[2]; k++) for (size_t j = 0; j <= n[1]; j++) for (size_t i = 0; i <= n[0]; i++)
        m.pts.push_back(Pt{{i * h[0], j * h[1], k * h[2]}});
    size_t mode = c.pick(4, "grid split");
    for (size_t k = 0; k < n[2]; k++) for (size_t j = 0; j < n[1]; j++) for (size_t i = 0; i < n[0]; i++) {
        Cycle v = {id(i,j,k), id(i+1,j,k), id(i+1,j+1,k), id(i,j+1,k), id(i,j,k+1), id(i+1,j,k+1), id(i+1,j+1,k+1), id(i,j+1,k+1)};
        if (mode == 0) m.cells.push_back({VTK_HEXA, v});
        else if (mode == 1) {
            m.cells.push_back({VTK_WEDGE, {v[0],v[1],v[2],v[4],v[5],v[6]}});
            m.cells.push_back({VTK_WEDGE, {v[0],v[2],v[3],v[4],v[6],v[7]}});
        } else if (mode == 2) {
            static const int paths[6][2] = {{1,2},{1,5},{3,2},{3,7},{4,5},{4,7}}; // Kuhn: 0 -> a -> b -> 6
            for (auto& p : paths) m.cells.push_back({VTK_TETRA, {v[0], v[p[0]], v[p[1]], v[6]}});
        } else {
            size_t ctr = m.pts.size();
            m.pts.push_back(Pt{{(i + 0.5) * h[0], (j + 0.5) * h[1], (k + 0.5) * h[2]}});
            for (auto& f : localFaces(VTK_HEXA)) m.cells.push_back({VTK_PYRAMID, {v[f[0]], v[f[1]], v[f[2]], v[f[3]], ctr}});
        }
    }
    return m;
}

template <typename T> void shuffle(sim::Ctx& c, std::vector<T>& v, const char* what) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.pick(i, what)]); }
/// Edges numbered as they appear: do two faces have edge numbers that look alike when written without separators?
inline bool similarKeys(const std::vector<Cycle>& tetra) {
    std::map<Edge, size_t> edges;
    std::unordered_map<uint64_t, std::vector<size_t>> keys;
    static const int local[6][2] = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}}, face[4][3] = {{0, 1, 2}, {0, 3, 4}, {1, 4, 5}, {2, 3, 5}};
    for (auto& t : tetra) {
      size_t num[6];
      for (int i = 0; i < 6; i++) num[i] = edges.insert({mkEdge(t[local[i][0]], t[local[i][1]]), edges.size()}).first->second;
      for (auto& f : face) {
        std::vector<size_t> e{num[f[0]], num[f[1]], num[f[2]]};
        std::sort(e.begin(), e.end());
        uint64_t k = 0; // the digits in a row
        for (size_t x : e) { for (size_t d = 10; ; d *= 10) if (x < d) { k = k * d + x; break; } }
        auto it = keys.insert({k, e}).first;
        if (it->second != e) return true;
      }
    }
    return false;
}
/// Tetrahedra around one edge with further ones on their outer faces, in a random order: edges of many faces, distant edge numbers in one face.
inline Mesh3 hubMesh(sim::Ctx& c) {
    size_t n = 3 + c.pick(28, "cells around the edge");
    bool similar = c.chance(1, 3, "faces with similar edge numbers");
    if (similar) n = 14 + n / 3;
    size_t ring = c.chance(1, 2, "closed") ? n : n + 1;
    size_t nv = 2 + ring;
    std::vector<Cycle> cells;
    for (size_t i = 0; i < n; i++) {
        size_t r = 2 + i, s = 2 + (i + 1) % ring;
        cells.push_back({0, 1, r, s});
        if (c.chance(3, 4, "outer cell")) cells.push_back({0, r, s, nv++});
        if (c.chance(3, 4, "outer cell")) cells.push_back({1, r, s, nv++});
    }
    shuffle(c, cells, "cell order");
    if (similar) {
        uint64_t s = c.pick(1u << 20, "order seed");
        for (int k = 0; k < 300 && !similarKeys(cells); k++)
            for (size_t i = cells.size(); i > 1; i--) { s = sim::mix64(s, i); std::swap(cells[i - 1], cells[s % i]); }
        if (similarKeys(cells)) c.probe("faces with similar edge numbers");
    }
    Mesh3 m;
    size_t total;
    std::vector<size_t> p = numbering(c, nv, total);
    for (size_t i = 0; i < total; i++) m.pts.push_back(i < 600 ? point3(c) : cheapPoint(i, false));
    for (auto& x : cells) {
        if (!similar && c.chance(1, 2, "other first vertex")) std::rotate(x.begin(), x.begin() + c.pick(4, "rotation"), x.end());
        for (auto& v : x) v = p[v];
        m.cells.push_back(Cell{VTK_TETRA, x});
    }
    c.probe("many cells around one edge");
    return m;
}
inline Mesh3 genMesh3(sim::Ctx& c, size_t small = 6, size_t big = 60) {
    if (big >= 60 && c.chance(1, 25, "hub mesh")) return hubMesh(c);
    if (c.chance(1, 5, "grid mesh")) return gridMesh(c, c.chance(1, 8, "bigger grid") ? 4 : 2);
    std::vector<Tmpl> t;
    for (int ty : {VTK_TETRA, VTK_HEXA, VTK_WEDGE, VTK_PYRAMID}) t.push_back({ty, vertexCount(ty), localFaces(ty)});
    size_t nv;
    auto g = glue(c, t, cellCount(c, small, big), nv);
    Mesh3 m;
    size_t total;
    std::vector<size_t> p = numbering(c, nv, total);
    for (size_t i = 0; i < total; i++) m.pts.push_back(i < 600 ? point3(c) : cheapPoint(i, false));
    for (auto& x : g) {
        Cell cell{t[x.first].type, x.second};
        for (auto& v : cell.v) v = p[v];
        m.cells.push_back(cell);
    }
    if (c.chance(1, 3, "shuffle cells")) shuffle(c, m.cells, "cell order");
    return m;
}

inline PolyMesh toPoly(sim::Ctx& c, const std::vector<std::vector<Cycle>>& cellFaces, const std::vector<Pt>& pts) {
    PolyMesh m;
    m.pts = pts;
    std::map<FaceKey, size_t> idx;
    bool shuffle = c.chance(1, 2, "shuffle faces");
    for (auto& fs : cellFaces) {
        std::vector<size_t> cf;
        for (auto f : fs) {
            FaceKey k = faceKey(f);
            auto it = idx.find(k);
            if (it == idx.end()) {
                if (shuffle) {
                    std::rotate(f.begin(), f.begin() + c.pick(f.size(), "face rotation"), f.end());
                    if (c.chance(1, 2, "face mirror")) std::reverse(f.begin(), f.end());
                }
                idx[k] = m.faces.size();
                cf.push_back(m.faces.size());
                m.faces.push_back(f);
            } else cf.push_back(it->second);
        }
        if (shuffle) for (size_t i = cf.size(); i > 1; i--) std::swap(cf[i - 1], cf[c.pick(i, "face order in cell")]);
        m.cells.push_back(cf);
    }
    if (shuffle) {
        std::vector<size_t> p(m.faces.size());
        for (size_t i = 0; i < p.size(); i++) p[i] = i;
        for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[c.pick(i, "face numbering")]);
        std::vector<Cycle> nf(m.faces.size());
        for (size_t i = 0; i < p.size(); i++) nf[p[i]] = m.faces[i];
        m.faces = nf;
        for (auto& cf : m.cells) for (auto& f : cf) f = p[f];
    }
    return m;
}
inline PolyMesh genPoly(sim::Ctx& c, size_t maxPoly = 6, size_t small = 5, size_t big = 40) {
    if (c.chance(1, 6, "grid mesh")) {
        Mesh3 m = gridMesh(c, 2);
        std::vector<std::vector<Cycle>> cf;
        for (auto& x : m.cells) cf.push_back(facesOf(x));
        return toPoly(c, cf, m.pts);
    }
    std::vector<Tmpl> t;
    for (size_t n = 3; n <= maxPoly; n++) {
        t.push_back({0, n + 1, pyramidFaces(n)});
        t.push_back({0, 2 * n, prismFaces(n)});
    }
    size_t nv;
    auto g = glue(c, t, cellCount(c, small, big), nv);
    size_t total;
    std::vector<size_t> p = numbering(c, nv, total);
    std::vector<Pt> pts;
    for (size_t i = 0; i < total; i++) pts.push_back(i < 600 ? point3(c) : cheapPoint(i, false));
    std::vector<std::vector<Cycle>> cf;
    for (auto& x : g) {
        std::vector<Cycle> fs = t[x.first].faces;
        for (auto& f : fs) for (auto& v : f) v = p[x.second[v]];
        cf.push_back(fs);
    }
    return toPoly(c, cf, pts);
}

/// 2D: polygons glued along edges. consistent: all cells have the same orientation.
inline Mesh2 genMesh2(sim::Ctx& c, size_t small = 8, size_t big = 150) {
    Mesh2 m;
    if (largeMeshes() && big >= 40 && c.chance(1, 150, "grid")) { // quadrilaterals, some of them divided
        size_t nx = 2 + c.pick(20, "grid size"), ny = 2 + c.pick(40, "grid size");
        m.consistent = true;
        for (size_t j = 0; j <= ny; j++) for (size_t i = 0; i <= nx; i++) m.pts.push_back(Pt{{double(i), double(j) / 2, 0}});
        size_t every = 1 + c.pick(5, "divided");
        for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) {
            size_t a = j * (nx + 1) + i, b = a + 1, d = a + nx + 1, e = d + 1;
            if ((i + j) % every) m.cells.push_back({VTK_QUAD, {a, b, e, d}});
            else { m.cells.push_back({VTK_TRI, {a, b, e}}); m.cells.push_back({VTK_TRI, {a, e, d}}); }
        }
        c.probe("2D grid");
        return m;
    }
    size_t count = cellCount(c, small, big);
    m.consistent = !c.chance(1, 3, "mixed orientation");
    std::map<Edge, int> use;
    std::vector<Edge> open;                       // directed as in the owner
    std::vector<Cycle> cells;
    size_t nv = 0;
    size_t maxPoly = 3 + c.skew(12, "largest polygon");
    for (size_t n = 0; n < count; n++) {
        size_t k = 3 + c.pick(maxPoly - 2, "polygon");
        Cycle v;
        bool ok = false;
        if (n > 0 && !c.chance(1, 10, "separate component")) {
            Edge e = open[open.size() - 1 - c.skew(open.size(), "open edge")];
            if (use[mkEdge(e.first, e.second)] < 2) {
                v = {e.second, e.first};
                size_t fresh = nv;
                while (v.size() < k) {
                    size_t x = fresh;
                    if (c.chance(1, 8, "reuse a vertex")) {
                        x = c.pick(nv, "reused vertex");
                        if (std::find(v.begin(), v.end(), x) != v.end()) x = fresh;
                    }
                    v.push_back(x);
                    if (x == fresh) fresh++;
                }
                ok = true;
                size_t shared = 0;
                for (size_t i = 0; i < v.size(); i++) {
                    Edge d(v[i], v[(i + 1) % v.size()]);
                    auto it = use.find(mkEdge(d.first, d.second));
                    if (it != use.end()) {
                        shared++;
                        if (it->second >= 2) ok = false;
                        // a consistent mesh needs opposite directions
                        if (std::find(open.begin(), open.end(), d) != open.end()) ok = false;
                    }
                }
                if (shared == v.size()) ok = false;
                if (ok) nv = fresh;
            }
        }
        if (!ok) { v.clear(); for (size_t i = 0; i < k; i++) v.push_back(nv++); }
        for (size_t i = 0; i < v.size(); i++) {
            Edge d(v[i], v[(i + 1) % v.size()]);
            if (++use[mkEdge(d.first, d.second)] == 1) open.push_back(d);
        }
        std::rotate(v.begin(), v.begin() + c.pick(v.size(), "start vertex"), v.end());
        if (!m.consistent && c.chance(1, 2, "reverse")) std::reverse(v.begin(), v.end());
        cells.push_back(v);
    }
    size_t total;
    std::vector<size_t> p = numbering(c, nv, total);
    for (size_t i = 0; i < total; i++) { if (i >= 600) { m.pts.push_back(cheapPoint(i, true)); continue; } Pt q = {{coord(c), coord(c), 0}}; m.pts.push_back(q); }
    for (auto& v : cells) {
        for (auto& x : v) x = p[x];
        int type = v.size() == 3 ? VTK_TRI : v.size() == 4 ? VTK_QUAD : VTK_POLY;
        if (c.chance(1, 8, "general type")) type = VTK_POLY;
        m.cells.push_back({type, v});
    }
    return m;
}

// ---------------------------------------------------------------- file texts
inline std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.12g", d); return b; }
inline std::string numStyle(sim::Ctx& c, double d, size_t style) {
    char b[40];
    if (style == 0) return num(d);
    if (style == 1) { snprintf(b, sizeof b, "%.6f", d); return b; }
    if (style == 2) { snprintf(b, sizeof b, "%.9e", d); return b; }
    (void)c;
    snprintf(b, sizeof b, "%+.3f", d);
    return b;
}
struct VtkStyle {
    size_t number, pointsPerLine, blank, pad; bool crlf, floatType; std::string title;
    explicit VtkStyle(sim::Ctx& c) {
        number = c.pick(4, "number style");
        pointsPerLine = 1 + c.pick(3, "points per line");
        blank = c.pick(3, "blank lines");
        crlf = c.chance(1, 8, "crlf");
        floatType = c.chance(1, 2, "float");
        static const char* titles[] = {"", "mesh", "Output of the test: CELLS 3 4", "ASCII", "POINTS"};
        size_t t = c.pick(6, "title");
        title = t < 5 ? titles[t] : std::string(c.range(1, 255, "length of the title"), 't');
        pad = c.chance(1, 6, "padding of lines") ? 1 + c.pick(8, "padding") : 0;
    }
};
template <typename M> std::string vtkText(sim::Ctx& c, const M& m, const VtkStyle& s) {
    std::string nl = s.crlf ? "\r\n" : "\n";
    std::string o = "# vtk DataFile Version 2.0" + nl + s.title + nl + "ASCII" + nl + "DATASET UNSTRUCTURED_GRID" + nl;
    o += "POINTS " + std::to_string(m.pts.size()) + (s.floatType ? " float" : " double") + std::string(s.pad, ' ') + nl;
    for (size_t i = 0; i < m.pts.size(); i++) {
        for (int k = 0; k < 3; k++) o += numStyle(c, m.pts[i][k], s.number) + (k < 2 ? " " : "");
        o += (i % s.pointsPerLine == s.pointsPerLine - 1 || i + 1 == m.pts.size()) ? nl : " ";
    }
    for (size_t i = 0; i < s.blank; i++) o += nl;
    size_t tot = 0;
    for (auto& x : m.cells) tot += x.v.size() + 1;
    o += "CELLS " + std::to_string(m.cells.size()) + " " + std::to_string(tot) + std::string(3 * s.pad, ' ') + nl;
    for (auto& x : m.cells) {
        o += std::to_string(x.v.size());
        for (size_t v : x.v) o += " " + std::to_string(v);
        if (s.blank == 2) o += " ";
        o += nl;
    }
    for (size_t i = 0; i < s.blank; i++) o += nl;
    o += "CELL_TYPES " + std::to_string(m.cells.size()) + nl;
    for (auto& x : m.cells) o += std::to_string(x.type) + nl;
    return o;
}
inline std::string fpmaText(sim::Ctx& c, const PolyMesh& m, bool trailer = true) {
    size_t style = c.pick(4, "number style");
    bool compact = c.chance(1, 4, "compact layout");
    const char* nl = compact ? " " : "\n";
    std::string o = std::to_string(m.pts.size()) + nl;
    for (auto& p : m.pts) { for (int k = 0; k < 3; k++) o += numStyle(c, p[k], style) + (k < 2 ? " " : ""); o += nl; }
    o += std::string("\n") + std::to_string(m.faces.size()) + nl;
    for (auto& f : m.faces) { o += std::to_string(f.size()) + " "; for (size_t v : f) o += std::to_string(v) + " "; o += nl; }
    o += std::to_string(m.cells.size()) + nl;
    for (auto& f : m.cells) { o += std::to_string(f.size()) + " "; for (size_t v : f) o += std::to_string(v) + " "; o += nl; }
    if (trailer) o += "0";
    return o;
}

// ---------------------------------------------------------------- independent parsers of the formats
struct Tok {
    std::istringstream s;
    bool ok = true;
    explicit Tok(const std::string& t) : s(t) {}
    std::string word() { std::string w; if (!(s >> w)) ok = false; return w; }
    size_t count() { std::string w = word(); char* e; unsigned long v = strtoul(w.c_str(), &e, 10); if (w.empty() || *e) ok = false; return v; }
    double real() { std::string w = word(); char* e; double v = strtod(w.c_str(), &e); if (w.empty() || *e) ok = false; return v; }
    bool end() { std::string w; return !(s >> w); }
};
/// Parse a legacy VTK file strictly; returns "" or what is wrong. rest: what follows CELL_TYPES.
inline std::string parseVtk(const std::string& text, Mesh3& m, std::string* title = nullptr, std::string* rest = nullptr) {
    size_t a = text.find('\n');
    if (a == text.npos || text.compare(0, 14, "# vtk DataFile") != 0) return "no VTK header";
    size_t b = text.find('\n', a + 1);
    if (b == text.npos) return "no title";
    if (title) *title = text.substr(a + 1, b - a - 1);
    Tok t(text.substr(b + 1));
    if (t.word() != "ASCII") return "no ASCII";
    if (t.word() != "DATASET" || t.word() != "UNSTRUCTURED_GRID") return "no DATASET UNSTRUCTURED_GRID";
    if (t.word() != "POINTS") return "no POINTS";
    size_t n = t.count();
    std::string ty = t.word();
    if (!t.ok || (ty != "double" && ty != "float")) return "bad POINTS";
    for (size_t i = 0; i < n && t.ok; i++) { Pt p; for (auto& x : p) x = t.real(); m.pts.push_back(p); }
    if (!t.ok) return "bad point";
    if (t.word() != "CELLS") return "no CELLS";
    size_t nc = t.count(), tot = t.count(), used = 0;
    for (size_t i = 0; i < nc && t.ok; i++) {
        size_t k = t.count();
        used += k + 1;
        if (!t.ok || used > tot) return "CELLS size " + std::to_string(tot) + " is smaller than the list";
        Cell cell{0, {}};
        for (size_t j = 0; j < k && t.ok; j++) { size_t v = t.count(); if (v >= n) return "vertex index out of range"; cell.v.push_back(v); }
        m.cells.push_back(cell);
    }
    if (!t.ok) return "bad CELLS";
    if (used != tot) return "CELLS size " + std::to_string(tot) + " but the list has " + std::to_string(used);
    if (t.word() != "CELL_TYPES") return "no CELL_TYPES";
    if (t.count() != nc) return "CELL_TYPES count differs from CELLS";
    for (auto& x : m.cells) x.type = (int)t.count();
    if (!t.ok) return "bad CELL_TYPES";
    if (rest) { std::ostringstream o; o << t.s.rdbuf(); *rest = o.str(); }
    else if (!t.end()) return "unexpected text after CELL_TYPES";
    return "";
}
inline std::string parseFpma(const std::string& text, PolyMesh& m) {
    Tok t(text);
    size_t n = t.count();
    for (size_t i = 0; i < n && t.ok; i++) { Pt p; for (auto& x : p) x = t.real(); m.pts.push_back(p); }
    size_t nf = t.count();
    for (size_t i = 0; i < nf && t.ok; i++) {
        Cycle f;
        size_t k = t.count();
        for (size_t j = 0; j < k && t.ok; j++) { size_t v = t.count(); if (v >= n) return "vertex index out of range"; f.push_back(v); }
        m.faces.push_back(f);
    }
    size_t nc = t.count();
    for (size_t i = 0; i < nc && t.ok; i++) {
        std::vector<size_t> f;
        size_t k = t.count();
        for (size_t j = 0; j < k && t.ok; j++) { size_t v = t.count(); if (v >= nf) return "face index out of range"; f.push_back(v); }
        m.cells.push_back(f);
    }
    if (!t.ok) return "malformed";
    return "";
}
inline bool sameCycle(const Cycle& a, const Cycle& b, bool allowMirror) {
    if (a.size() != b.size()) return false;
    for (size_t r = 0; r < a.size(); r++) {
        bool eq = true, eqm = allowMirror;
        for (size_t i = 0; i < a.size(); i++) {
            if (a[i] != b[(r + i) % b.size()]) eq = false;
            if (a[i] != b[(r + b.size() - i) % b.size()]) eqm = false;
        }
        if (eq || eqm) return true;
    }
    return a.empty();
}

} // namespace model
#endif
