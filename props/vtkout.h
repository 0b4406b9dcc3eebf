// Check of a written VTK file against the mesh it was written from.
#ifndef VERIF_VTKOUT_H
#define VERIF_VTKOUT_H
#include "cases.h"
#include <cmath>
#include <sys/stat.h>

namespace cases {

/// Value as it appears in the file when written with the given number of digits.
inline double printed(double v, int digits) { char b[64]; snprintf(b, sizeof b, "%.*g", digits, v); return strtod(b, nullptr); }
inline bool near(double written, double v, int digits) {
    double tol = 2 * std::pow(10.0, 1 - digits) * std::fabs(v);
    return std::fabs(written - v) <= tol;
}
inline std::string nearKey(const Pt& p) { char b[100]; snprintf(b, sizeof b, "%.3f;%.3f;%.3f", p[0] + 0.0, p[1] + 0.0, p[2] + 0.0); return b; }

/// Which cells can be written as such, as what.
struct WritePlan { std::vector<int> types; bool none = false; };   // 0: polyhedron/polygon

inline void checkPoints(Ctx& c, const std::vector<Pt>& orig, const std::vector<Pt>& written, int digits) {
    if (written.size() < orig.size()) c.violate("lost-vertices", "the file has %zu points, the mesh %zu", written.size(), orig.size());
    for (size_t i = 0; i < orig.size(); i++) for (int k = 0; k < 3; k++)
        if (written[i][k] != printed(orig[i][k], digits)) c.violate("wrong-point", "coordinate %d of point %zu is %.17g in the file but %.17g in the mesh (%d digits written)", k, i, written[i][k], orig[i][k], digits);
}

/// 2D: polygons
inline void checkVtk2(Ctx& c, const std::string& text, const std::string& title, const Mesh2& ref, const std::vector<Pt>& pts, const WritePlan& plan, int digits) {
    Mesh3 w;
    std::string t;
    std::string e = parseVtk(text, w, &t);
    if (!e.empty()) c.violate("malformed-file", "the written file is not a valid VTK file: %s", e.c_str());
    if (t != title) c.violate("wrong-title", "title '%s' instead of '%s'", sim::printable(t).c_str(), sim::printable(title).c_str());
    if (w.pts.size() != pts.size()) c.violate("lost-vertices", "the file has %zu points, the mesh %zu", w.pts.size(), pts.size());
    checkPoints(c, pts, w.pts, digits);
    if (w.cells.size() != ref.cells.size()) c.violate("lost-cells", "the file has %zu cells, the mesh %zu", w.cells.size(), ref.cells.size());
    for (size_t i = 0; i < w.cells.size(); i++) {
        if (!sameCycle(w.cells[i].v, ref.cells[i].v, !ref.consistent)) {
            std::string a, b;
            for (size_t v : w.cells[i].v) a += std::to_string(v) + " ";
            for (size_t v : ref.cells[i].v) b += std::to_string(v) + " ";
            c.violate("wrong-cell", "cell %zu was written as %s but is %s", i, a.c_str(), b.c_str());
        }
        int ty = plan.none ? VTK_POLY : plan.types[i] ? plan.types[i] : VTK_POLY;
        if (w.cells[i].type != ty) c.violate("wrong-type", "cell %zu was written with type %d instead of %d", i, w.cells[i].type, ty);
    }
}

/// 3D: native cells keep their faces; others are split into tetrahedra around their centers.
/// cellOf: for each written cell the cell of the mesh it comes from.
template <typename MT>
void checkVtk3(Ctx& c, const std::string& text, const std::string& title, const Topo& ref, const MT& mesh, const std::vector<Pt>& pts, const WritePlan& plan, int digits,
               Mesh3& w, std::vector<size_t>& cellOf, std::string* rest = nullptr) {
    std::string t;
    std::string e = parseVtk(text, w, &t, rest);
    if (!e.empty()) c.violate("malformed-file", "the written file is not a valid VTK file: %s", e.c_str());
    if (t != title) c.violate("wrong-title", "title '%s' instead of '%s'", sim::printable(t).c_str(), sim::printable(title).c_str());
    checkPoints(c, pts, w.pts, digits);
    // centers of faces
    std::map<FaceKey, Pt> fc;
    for (auto& f : mesh.getFaces()) {
        Pt p;
        for (int k = 0; k < 3; k++) p[k] = f.getCenter()[k];
        fc[FaceEdges<3>::key(c, mesh, f)] = p;
    }
    size_t at = 0;
    size_t added = 0;
    std::map<FaceKey, size_t> faceVertex;   // point used for the center of a face by an earlier cell
    for (size_t i = 0; i < ref.cellFaces.size(); i++) {
        int ty = plan.none ? 0 : plan.types[i];
        if (ty) {
            if (at >= w.cells.size()) c.violate("lost-cells", "cell %zu is missing in the file", i);
            const Cell& x = w.cells[at];
            if (x.type != ty) c.violate("wrong-type", "cell %zu was written with type %d instead of %d", i, x.type, ty);
            if (x.v.size() != vertexCount(ty)) c.violate("wrong-cell", "cell %zu of type %d has %zu vertices", i, ty, x.v.size());
            std::set<FaceKey> fs;
            for (auto& f : facesOf(x)) fs.insert(faceKey(f));
            if (fs != ref.cellFaces[i]) {
                std::string a;
                for (size_t v : x.v) a += std::to_string(v) + " ";
                c.violate("wrong-cell", "cell %zu was written as %s which has other faces than the cell of the mesh", i, a.c_str());
            }
            cellOf.push_back(i);
            at++;
        } else {
            // expected: one tetrahedron for each edge of each face
            Pt cc;
            for (int k = 0; k < 3; k++) cc[k] = mesh.getCells()[i].getCenter()[k];
            auto isAt = [&](size_t v, const Pt& p) { return near(w.pts[v][0], p[0], digits) && near(w.pts[v][1], p[1], digits) && near(w.pts[v][2], p[2], digits); };
            size_t parts = 0;
            for (auto& f : ref.cellFaces[i]) parts += f.size();
            std::vector<std::pair<Edge, std::array<size_t, 2>>> tets;
            for (size_t n = parts; n > 0; n--, at++) {
                if (at >= w.cells.size()) c.violate("lost-cells", "a part of cell %zu is missing in the file", i);
                const Cell& x = w.cells[at];
                if (x.type != VTK_TETRA || x.v.size() != 4) c.violate("wrong-type", "a part of the split cell %zu is not a tetrahedron", i);
                std::vector<size_t> own, add;
                for (size_t v : x.v) (v < pts.size() ? own : add).push_back(v);
                if (own.size() != 2 || add.size() != 2) c.violate("wrong-split", "a part of the split cell %zu is not made of an edge and two centers", i);
                tets.push_back({mkEdge(own[0], own[1]), {{add[0], add[1]}}});
                cellOf.push_back(i);
                added++;
            }
            // the center of the cell is the same point of all its parts
            std::string why = "no common point of the parts lies in the center of the cell";
            bool good = false;
            for (int s = 0; s < 2 && !good && !tets.empty(); s++) {
                size_t center = tets[0].second[s];
                bool common = isAt(center, cc);
                std::multiset<std::pair<Edge, size_t>> left;
                for (auto& t : tets) {
                    if (t.second[0] != center && t.second[1] != center) common = false;
                    left.insert({t.first, t.second[0] == center ? t.second[1] : t.second[0]});
                }
                if (!common) continue;
                good = true;
                for (auto& f : ref.cellFaces[i]) {
                    std::set<size_t> cand;
                    auto fv = faceVertex.find(f);
                    if (fv != faceVertex.end()) cand.insert(fv->second);
                    else for (auto& l : left) if (l.first == f[0] && l.second != center && isAt(l.second, fc[f])) cand.insert(l.second);
                    bool done = false;
                    for (size_t g : cand) {
                        bool all = true;
                        for (auto& ed : f) all = all && left.count({ed, g});
                        if (!all) continue;
                        for (auto& ed : f) left.erase(left.find({ed, g}));
                        faceVertex[f] = g;
                        done = true;
                        break;
                    }
                    if (!done) {
                        good = false;
                        why = "the face " + str(f) + " is not covered by the parts over its edges and one point in its center" + (fv != faceVertex.end() ? ", the same as for the neighbouring cell" : "");
                        break;
                    }
                }
            }
            if (!good && parts) c.violate("wrong-split", "the parts of the split cell %zu do not make up the cell: %s", i, why.c_str());
        }
    }
    if (at != w.cells.size()) c.violate("extra-cells", "the file has %zu cells, expected %zu", w.cells.size(), at);
    if (added) c.probe("tetrahedra from split cells", added);
}

/// true when every face belongs to at most two cells
inline bool manifold(const Topo& t) { for (auto& f : t.faceCells) if (f.second.size() > 2) return false; return true; }

template <unsigned D, typename MT> Types<D> makeTypes(const MT& mesh, const WritePlan& p);
template <typename MT> Types<3> makeTypes3(const MT& mesh, const WritePlan& p) {
    Types<3> t;
    if (p.none) return t;
    t.allocateData(mesh);
    for (size_t i = 0; i < p.types.size(); i++) t.template getDataByPos<0>().at(i) = nativeType3(p.types[i]);
    return t;
}
template <typename MT> Types<2> makeTypes2(const MT& mesh, const WritePlan& p) {
    Types<2> t;
    if (p.none) return t;
    t.allocateData(mesh);
    for (size_t i = 0; i < p.types.size(); i++) t.template getDataByPos<0>().at(i) = nativeType2(p.types[i]);
    return t;
}

/// A 3D mesh to be written: loaded from VTK or FPMA text, with a choice of types.
struct Source3 { Case k; WritePlan plan; bool fromPoly = false; };
inline Source3 genSource3(Ctx& c, size_t small = 5, size_t big = 40, bool manyEdges = false) {
    Source3 s;
    int how = c.pick(3, "source");
    GenOpt o; o.small3 = small; o.big3 = big; o.manyEdges = manyEdges;
    if (how == 0) { // native cells through VTK
        s.k = genCase(c, VTK3, o);
        for (auto& x : s.k.m3.cells) s.plan.types.push_back(x.type);
    } else if (how == 1) { // native cells through FPMA (arbitrary order of faces and edges)
        Mesh3 m = genMesh3(c, small, big);
        std::vector<std::vector<Cycle>> cf;
        for (auto& x : m.cells) { cf.push_back(facesOf(x)); s.plan.types.push_back(x.type); }
        s.k.fmt = FPMA3;
        s.k.poly = toPoly(c, cf, m.pts);
        s.k.topo = topo(s.k.poly);
        s.k.text = fpmaText(c, s.k.poly);
        s.fromPoly = true;
    } else { // polyhedra
        s.k = genCase(c, FPMA3, o);
        s.plan.types.assign(s.k.poly.cells.size(), 0);
        s.fromPoly = true;
    }
    switch (c.pick(4, "types")) {
    case 0: break;
    case 1: for (auto& t : s.plan.types) if (c.chance(1, 2, "write as polyhedron")) t = 0; break;
    case 2: for (auto& t : s.plan.types) t = 0; break;
    case 3: if (c.chance(1, 2, "no types")) s.plan.none = true; break;
    }
    return s;
}
/// 3D mesh for writers which always need the types
inline void needTypes(Source3& s) { if (s.plan.none) { s.plan.none = false; for (auto& t : s.plan.types) t = 0; } }

/// A name with the given extension in the scratch directory, sometimes below a directory whose name contains an extension.
inline std::string genPath(Ctx& c, const char* name) {
    static const char* d[] = {"", "./", "sub/", "a.vtk/", "b.fpma/", "c.vtk.d/e.fpma/"};
    sim::enterScratch(c);
    std::string dir = d[c.chance(1, 2, "in a directory") ? c.pick(6, "directory") : 0];
    for (size_t i = dir.find('/'); i != std::string::npos; i = dir.find('/', i + 1)) mkdir(dir.substr(0, i).c_str(), 0700);
    return dir + name;
}
inline std::string genTitle(Ctx& c) {
    static const char* t[] = {"", "mesh", "a longer title: CELLS POINTS ASCII", "x y\tz", "# comment", "SCALARS pressure double 1", "VECTORS velocity double", "POINT_DATA 3", "SCALARS colour int"};
    return t[c.pick(9, "title")];
}
} // namespace cases
#endif
