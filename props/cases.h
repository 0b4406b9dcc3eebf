// Mesh files of all formats with the topology they describe, and generic loading.
#ifndef VERIF_CASES_H
#define VERIF_CASES_H
#include "model.h"
#include "meshcheck.h"
#include "streams.h"
#include "fileio.h"
#include <memory>

namespace cases {
using namespace model;
using sim::Ctx;

enum Fmt { VTK2 = 0, VTK3 = 1, FPMA3 = 2 };
inline const char* name(int f) { return f == VTK2 ? "VTK 2D" : f == VTK3 ? "VTK 3D" : "FPMA"; }
inline const char* fileName(int f) { return f == FPMA3 ? "m.fpma" : "m.vtk"; }

struct Case {
    int fmt = 0;
    std::string text;
    Topo topo;
    Mesh2 m2;
    Mesh3 m3;
    PolyMesh poly;
};
template <typename MT> struct HasReserve { static constexpr bool value = false; };
template <unsigned D, typename I, typename R, unsigned R0, unsigned... Rest> struct HasReserve<UnstructuredMesh<D, I, R, R0, Rest...>> { static constexpr bool value = true; };
struct GenOpt {
    size_t small3 = 6, big3 = 60, small2 = 8, big2 = 150, maxPoly = 6;
    bool trailer = true, manyEdges = false;
    /// faces with many edges, if the mesh has no fixed number of them
    template <typename MT> GenOpt& forMesh() { manyEdges = !HasReserve<MT>::value; return *this; }
};

inline Case genCase(Ctx& c, int fmt, const GenOpt& o = GenOpt()) {
    Case k;
    k.fmt = fmt;
    if (fmt == VTK2) {
        k.m2 = genMesh2(c, o.small2, o.big2);
        k.topo = topo(k.m2);
        VtkStyle s(c);
        k.text = vtkText(c, k.m2, s);
    } else if (fmt == VTK3) {
        k.m3 = genMesh3(c, o.small3, o.big3);
        k.topo = topo(k.m3);
        VtkStyle s(c);
        k.text = vtkText(c, k.m3, s);
    } else {
        size_t maxPoly = o.maxPoly;
        if (o.manyEdges && c.chance(1, 8, "many edges")) maxPoly = 7 + c.pick(12, "largest polygon");
        k.poly = genPoly(c, maxPoly, o.small3, o.big3);
        k.topo = topo(k.poly);
        k.text = fpmaText(c, k.poly, o.trailer);
    }
    return k;
}
inline std::string describe(const Case& k) {
    return std::string(name(k.fmt)) + " file of " + std::to_string(k.text.size()) + " bytes: " + std::to_string(k.topo.pts.size()) + " vertices, "
         + std::to_string(k.topo.faceCells.size()) + " faces, " + std::to_string(k.topo.cellFaces.size()) + " cells";
}
/// A measure of the shape of the case (not of its coordinates).
inline uint64_t signature(const Case& k) {
    uint64_t h = sim::mix64(k.fmt, k.topo.pts.size());
    for (auto& cf : k.topo.cellFaces) for (auto& f : cf) for (auto& e : f) h = sim::mix64(h, e.first * 1000003 + e.second);
    for (int t : k.topo.types) h = sim::mix64(h, t);
    return h;
}

template <unsigned D> using Types = MeshDataContainer<typename MeshNativeType<D>::ElementType, D>;

/// Loads from a stream with a given reader or a fresh one.
template <unsigned D> struct Load;
template <> struct Load<2> {
    template <typename MT> static void stream(int, std::istream& is, MT& mesh, Types<2>& types) {
        VTKMeshReader<2> r;
        r.loadFromStream(is, mesh);
        types = r.getCellTypes();
    }
};
template <> struct Load<3> {
    template <typename MT> static void stream(int fmt, std::istream& is, MT& mesh, Types<3>& types) {
        if (fmt == VTK3) {
            VTKMeshReader<3> r;
            r.loadFromStream(is, mesh);
            types = r.getCellTypes();
        } else {
            FPMAMeshReader<3> r;
            r.loadFromStream(is, mesh);
            types = r.getCellTypes();
        }
    }
};

/// In 2D the boundary ring of a cell follows its polygon: consecutive edges share a vertex.
template <typename MT> void checkRing2(Ctx& c, const MT& mesh, const Mesh2& ref) {
    const auto& E = mesh.getEdges();
    for (size_t i = 0; i < mesh.getCells().size(); i++) {
        size_t first = mesh.getCells()[i].getBoundaryElementIndex(), e = first;
        std::vector<Edge> ring;
        do {
            ring.push_back(mkEdge(E[e].getVertexAIndex(), E[e].getVertexBIndex()));
            e = E[e].getNextBElem(i);
        } while (e != first && ring.size() <= E.size());
        for (size_t j = 0; j < ring.size(); j++) {
            Edge a = ring[j], b = ring[(j + 1) % ring.size()];
            if (a.first != b.first && a.first != b.second && a.second != b.first && a.second != b.second)
                c.violate("broken-ring", "consecutive edges %zu-%zu and %zu-%zu of cell %zu do not share a vertex", a.first, a.second, b.first, b.second, i);
        }
        (void)ref;
    }
}
/// FPMA numbers faces: face i of the mesh is face i of the file.
template <typename MT> void checkFaceNumbers(Ctx& c, const MT& mesh, const PolyMesh& ref) {
    for (size_t i = 0; i < ref.faces.size(); i++) {
        FaceKey k = FaceEdges<3>::key(c, mesh, mesh.getFaces()[i]);
        if (k != faceKey(ref.faces[i])) c.violate("wrong-face", "face %zu has edges %s but the file says %s", i, str(k).c_str(), str(faceKey(ref.faces[i])).c_str());
    }
}
template <unsigned D> struct Extra;
template <> struct Extra<2> { template <typename MT> static void check(Ctx& c, const MT& m, const Case& k) { checkRing2(c, m, k.m2); } };
template <> struct Extra<3> { template <typename MT> static void check(Ctx& c, const MT& m, const Case& k) { if (k.fmt == FPMA3) checkFaceNumbers(c, m, k.poly); } };

/// The loaded mesh is what the file describes.
template <typename MT> void checkLoaded(Ctx& c, const MT& mesh, const Types<MT::meshDimension()>& types, const Case& k, const char* what) {
    Topo t = extract(c, mesh, types);
    std::string d = firstDifference(k.topo, t);
    if (!d.empty()) c.violate("wrong-mesh", "%s: the file describes a different mesh than was loaded (file vs loaded): %s", what, d.c_str());
    Extra<MT::meshDimension()>::check(c, mesh, k);
}

/// The files a mesh opens itself do not depend on the global locale.
inline void drawLocale(Ctx& c, sim::FilePlan& p) {
    if (!c.chance(1, 4, "global locale")) return;
    p.locale = 1 + (int)c.pick(sim::FileSim::locales - 1, "which");
    c.ev("global locale: %s", sim::FileSim::localeName(p.locale));
}
/// A file plan without failures: short reads and interrupted calls only.
inline sim::FilePlan benignPlan(Ctx& c) {
    sim::FilePlan p;
    static const uint64_t sz[] = {0, 1, 2, 5, 17, 100, 1000};
    p.shortReadMax = sz[c.pick(7, "short read size")];
    p.shortWriteMax = sz[c.pick(7, "short write size")];
    if (c.chance(1, 3, "interrupted calls")) p.eintrEvery = 1 + c.pick(5, "interrupt period");
    return p;
}
template <typename F> inline void turnEdge(F& f, std::integral_constant<unsigned, 2>) { auto a = f.getVertexAIndex(); f.setVertexAIndex(f.getVertexBIndex()); f.setVertexBIndex(a); }
template <typename F> inline void turnEdge(F&, std::integral_constant<unsigned, 3>) {}
/// Gives some faces their left cell on the right, as a mesh built by hand may have; returns how many.
template <typename MT> inline size_t turnFaces(Ctx& c, MT& m) {
    size_t n = 0;
    for (auto& f : m.getFaces()) if (c.chance(1, 3, "turn")) {
        auto l = f.getCellLeftIndex(), r = f.getCellRightIndex(), nl = f.getNextBElemWRTCL(), nr = f.getNextBElemWRTCR();
        f.setCellLeftIndex(r); f.setCellRightIndex(l); f.setNextBElemWRTCL(nr); f.setNextBElemWRTCR(nl);
        turnEdge(f, std::integral_constant<unsigned, MT::meshDimension()>());
        n++;
    }
    return n;
}
/// Turns some edges of a 3D mesh and permutes the edges of some faces.
template <typename MT> inline size_t shuffleEdges(Ctx& c, MT& m, std::integral_constant<unsigned, 3>) {
    size_t n = 0;
    for (auto& e : m.getEdges()) if (c.chance(1, 3, "turn edge")) { turnEdge(e, std::integral_constant<unsigned, 2>()); n++; }
    for (auto& f : m.getFaces()) if (c.chance(1, 2, "permute edges")) {
        auto& s = f.getSubelements();
        for (size_t i = s.getNumberOfSubElements(); i > 1; i--) std::swap(s[i - 1], s[c.pick(i, "edge")]);
        n++;
    }
    return n;
}
template <typename MT> inline size_t shuffleEdges(Ctx&, MT&, std::integral_constant<unsigned, 2>) { return 0; }
/// Links the boundary elements of some cells in another order.
template <typename MT> inline size_t shuffleRings(Ctx& c, MT& m) {
    size_t n = 0;
    for (size_t i = 0; i < m.getCells().size(); i++) if (c.chance(1, 2, "permute ring")) {
        auto& cell = m.getCells()[i];
        std::vector<size_t> ring;
        size_t first = cell.getBoundaryElementIndex(), f = first;
        do { ring.push_back(f); f = m.getFaces()[f].getNextBElem(i); } while (f != first && ring.size() <= m.getFaces().size());
        for (size_t j = ring.size(); j > 1; j--) std::swap(ring[j - 1], ring[c.pick(j, "element")]);
        cell.setBoundaryElementIndex(ring[0]);
        for (size_t j = 0; j < ring.size(); j++) m.getFaces()[ring[j]].setNextBElem(ring[(j + 1) % ring.size()], i);
        n++;
    }
    return n;
}
/// Now and then what a mesh built or edited by hand may have and a loaded one does not: turned faces and edges, edges of a
/// face and boundary elements of a cell in another order, boundary cells.
template <typename MT> inline void modify(Ctx& c, MT& m) {
    if (c.chance(1, 4, "turned faces")) c.ev("turn %zu faces", turnFaces(c, m));
    if (c.chance(1, 4, "edges shuffled")) c.ev("turn or permute edges %zu times", shuffleEdges(c, m, std::integral_constant<unsigned, MT::meshDimension()>()));
    if (c.chance(1, 4, "rings shuffled")) c.ev("permute the boundary of %zu cells", shuffleRings(c, m));
    if (c.chance(1, 6, "boundary cells")) { m.setupBoundaryCells(); c.ev("boundary cells"); }
}
} // namespace cases
#endif
