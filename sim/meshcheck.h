// Checks of a loaded GTMesh mesh against the reference topology.
#ifndef VERIF_MESHCHECK_H
#define VERIF_MESHCHECK_H
#include "model.h"
#include "sim.h"
#include <fstream>
#include <iostream>
#include <memory>
#include <typeinfo>
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <sstream>

namespace model {

template <typename MT> struct MeshDim { static constexpr unsigned value = MT::meshDimension(); };

inline int typeCode(MeshNativeType<3>::ElementType t) {
    switch (t) {
    case MeshNativeType<3>::TETRA: return VTK_TETRA;
    case MeshNativeType<3>::HEXAHEDRON: return VTK_HEXA;
    case MeshNativeType<3>::WEDGE: return VTK_WEDGE;
    case MeshNativeType<3>::PYRAMID: return VTK_PYRAMID;
    default: return 0;
    }
}
inline int typeCode(MeshNativeType<2>::ElementType t) {
    switch (t) {
    case MeshNativeType<2>::LINE: return 3;
    case MeshNativeType<2>::TRIANGLE: return VTK_TRI;
    case MeshNativeType<2>::QUAD: return VTK_QUAD;
    case MeshNativeType<2>::POLYGON: return VTK_POLY;
    default: return 0;
    }
}
inline MeshNativeType<3>::ElementType nativeType3(int code) {
    switch (code) {
    case VTK_TETRA: return MeshNativeType<3>::TETRA;
    case VTK_HEXA: return MeshNativeType<3>::HEXAHEDRON;
    case VTK_WEDGE: return MeshNativeType<3>::WEDGE;
    case VTK_PYRAMID: return MeshNativeType<3>::PYRAMID;
    default: return MeshNativeType<3>::POLYHEDRON;
    }
}
inline MeshNativeType<2>::ElementType nativeType2(int code) {
    switch (code) {
    case VTK_TRI: return MeshNativeType<2>::TRIANGLE;
    case VTK_QUAD: return MeshNativeType<2>::QUAD;
    default: return MeshNativeType<2>::POLYGON;
    }
}

template <unsigned D> struct FaceEdges {
    template <typename M, typename F> static FaceKey key(sim::Ctx& c, const M& mesh, const F& face) {
        FaceKey k;
        const auto& sub = face.getSubelements();
        for (size_t i = 0; i < sub.size(); i++) {
            if (sub[i] >= mesh.getEdges().size()) c.violate("bad-topology", "face %zu refers to edge %zu of %zu", (size_t)face.getIndex(), (size_t)sub[i], (size_t)mesh.getEdges().size());
            const auto& e = mesh.getEdges()[sub[i]];
            k.push_back(mkEdge(e.getVertexAIndex(), e.getVertexBIndex()));
        }
        std::sort(k.begin(), k.end());
        return k;
    }
};
template <> struct FaceEdges<2> {
    template <typename M, typename F> static FaceKey key(sim::Ctx&, const M&, const F& e) {
        return FaceKey(1, mkEdge(e.getVertexAIndex(), e.getVertexBIndex()));
    }
};

/// Read the topology out of the mesh, checking its internal consistency on the way.
template <typename MT, typename Types>
Topo extract(sim::Ctx& c, const MT& mesh, const Types& types) {
    constexpr unsigned D = MT::meshDimension();
    Topo t;
    const auto& V = mesh.getVertices();
    const auto& E = mesh.getEdges();
    const auto& F = mesh.getFaces();
    const auto& C = mesh.getCells();
    for (size_t i = 0; i < V.size(); i++) {
        if (V[i].getIndex() != i) c.violate("bad-index", "vertex at position %zu has index %zu", i, (size_t)V[i].getIndex());
        Pt p = {{0, 0, 0}};
        for (unsigned k = 0; k < D; k++) p[k] = V[i][k];
        t.pts.push_back(p);
    }
    for (size_t i = 0; i < E.size(); i++) {
        if (E[i].getIndex() != i) c.violate("bad-index", "edge at position %zu has index %zu", i, (size_t)E[i].getIndex());
        size_t a = E[i].getVertexAIndex(), b = E[i].getVertexBIndex();
        if (a >= V.size() || b >= V.size()) c.violate("bad-topology", "edge %zu refers to vertex out of range", i);
        if (!t.edges.insert(mkEdge(a, b)).second) c.violate("duplicate-edge", "edge %zu-%zu exists twice", a, b);
    }
    std::vector<FaceKey> keys;
    for (size_t i = 0; i < F.size(); i++) {
        if (F[i].getIndex() != i) c.violate("bad-index", "face at position %zu has index %zu", i, (size_t)F[i].getIndex());
        keys.push_back(FaceEdges<D>::key(c, mesh, F[i]));
        if (t.faceCells.count(keys.back())) c.violate("duplicate-face", "face %s exists twice", str(keys.back()).c_str());
        auto& cc = t.faceCells[keys.back()];
        typedef typename std::decay<decltype(F[i].getCellLeftIndex())>::type I;
        for (I x : {F[i].getCellLeftIndex(), F[i].getCellRightIndex()}) {
            if (isInvalidIndex(x) || isBoundaryIndex(x)) continue;
            if (x >= C.size()) c.violate("bad-topology", "face %zu refers to cell %zu of %zu", i, (size_t)x, (size_t)C.size());
            cc.push_back(x);
        }
        std::sort(cc.begin(), cc.end());
    }
    t.cellFaces.resize(C.size());
    for (size_t i = 0; i < C.size(); i++) {
        if (C[i].getIndex() != i) c.violate("bad-index", "cell at position %zu has index %zu", i, (size_t)C[i].getIndex());
        size_t f = C[i].getBoundaryElementIndex(), first = f, n = 0;
        do {
            if (f >= F.size()) c.violate("broken-ring", "the boundary ring of cell %zu refers to face %zu of %zu", i, f, (size_t)F.size());
            if (F[f].getCellLeftIndex() != i && F[f].getCellRightIndex() != i) c.violate("broken-ring", "face %zu in the boundary ring of cell %zu does not refer to the cell", f, i);
            if (!t.cellFaces[i].insert(keys[f]).second) c.violate("broken-ring", "face %zu is twice in the boundary ring of cell %zu", f, i);
            f = F[f].getNextBElem(i);
            if (++n > F.size()) c.violate("broken-ring", "the boundary ring of cell %zu is not closed", i);
        } while (f != first);
    }
    const auto& td = types.template getDataByPos<0>();
    for (size_t i = 0; i < td.size(); i++) t.types.push_back(typeCode(td[i]));
    return t;
}

/// Everything observable of a mesh as text (order and numbering included).
template <unsigned D> struct DumpFace {
    template <typename F> static void sub(std::ostringstream& o, const F& f) {
        const auto& s = f.getSubelements();
        for (size_t j = 0; j < s.size(); j++) o << " " << s[j];
    }
};
template <> struct DumpFace<2> { template <typename F> static void sub(std::ostringstream&, const F&) {} };
template <typename MT> std::string dump(const MT& mesh) {
    constexpr unsigned D = MT::meshDimension();
    std::ostringstream o;
    o.precision(17);
    const auto& V = mesh.getVertices();
    for (size_t i = 0; i < V.size(); i++) { o << "v" << V[i].getIndex(); for (unsigned k = 0; k < D; k++) o << " " << V[i][k]; o << "\n"; }
    for (auto& e : mesh.getEdges()) o << "e" << e.getIndex() << " " << e.getVertexAIndex() << " " << e.getVertexBIndex() << "\n";
    for (auto& f : mesh.getFaces()) {
        o << "f" << f.getIndex() << " L" << f.getCellLeftIndex() << " R" << f.getCellRightIndex() << " nl" << f.getNextBElemWRTCL() << " nr" << f.getNextBElemWRTCR() << ":";
        DumpFace<D>::sub(o, f);
        for (unsigned k = 0; k < D; k++) o << " " << f.getCenter()[k];
        o << "\n";
    }
    for (auto& x : mesh.getCells()) { o << "c" << x.getIndex() << " b" << x.getBoundaryElementIndex(); for (unsigned k = 0; k < D; k++) o << " " << x.getCenter()[k]; o << "\n"; }
    for (auto& x : mesh.getBoundaryCells()) o << "b" << x.getIndex() << " b" << x.getBoundaryElementIndex() << "\n";
    return o.str();
}
template <typename Types> std::string dumpTypes(const Types& t) {
    std::ostringstream o;
    for (auto x : t.template getDataByPos<0>()) o << (int)x << " ";
    return o.str();
}
inline std::string diffLine(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string l, m;
    for (size_t n = 1;; n++) {
        bool p = static_cast<bool>(std::getline(x, l)), q = static_cast<bool>(std::getline(y, m));
        if (!p && !q) return "";
        if (!p) return "line " + std::to_string(n) + ": <end> vs " + m.substr(0, 200);
        if (!q) return "line " + std::to_string(n) + ": " + l.substr(0, 200) + " vs <end>";
        if (l != m) return "line " + std::to_string(n) + ": " + l.substr(0, 200) + " vs " + m.substr(0, 200);
    }
}

} // namespace model
#endif
