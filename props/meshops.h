// Read-only operations on a mesh, each with a digest of its result.
#ifndef VERIF_MESHOPS_H
#define VERIF_MESHOPS_H
#include "celldata.h"
#include <GTMesh/UnstructuredMesh/MeshFunctions/CellsDistance.h>
#include <GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h>

namespace meshops {
struct Digest {
    uint64_t h = 0x77;
    void add(uint64_t v) { h = (h ^ v) * 0xff51afd7ed558ccdULL; h ^= h >> 29; }
    void add(double v) { uint64_t x; memcpy(&x, &v, 8); add(v == v ? x : (uint64_t)1); }
    void add(float v) { add((double)v); }
    void add(unsigned v) { add((uint64_t)v); }
    void add(unsigned short v) { add((uint64_t)v); }
    void add(int v) { add((uint64_t)v); }
    void add(bool v) { add((uint64_t)v); }
    void add(const std::string& s) { add((uint64_t)s.size()); for (char c : s) add((uint64_t)(unsigned char)c); }
    template <unsigned N, typename R> void add(const Vector<N, R>& v) { for (unsigned i = 0; i < N; i++) add(v[i]); }
    template <unsigned D, typename I> void add(const ElementIndex<D, I>& v) { add((uint64_t)(I)v.index); }
    template <typename T> void add(const std::vector<T>& v) { add((uint64_t)v.size()); for (auto x : v) add(x); }
};
template <typename C> void addAll(Digest& d, const C& c) { d.add((uint64_t)c.size()); for (size_t i = 0; i < c.size(); i++) d.add(c[i]); }

struct Param { int what; unsigned seed; int method; size_t start; };
const int OPS = 15;
inline const char* opName(int w) {
    static const char* n[] = {"iteration", "apply", "apply from one element", "connections", "neighbourhood", "greedy colouring", "random colouring", "centers", "measures", "normals", "cell distances", "VTK export", "copy", "containers and arithmetic", "cell data export"};
    return n[w];
}
template <unsigned D> struct Special;
template <> struct Special<3> {
    template <typename MT> static void write(Digest& d, MT& m, const cases::Types<3>& t, const Param& p) {
        typedef typename MT::Vertex V;
        typedef typename std::remove_reference<decltype(std::declval<V>()[0])>::type Real;
        typedef typename std::decay<decltype(std::declval<V>().getIndex())>::type Index;
        std::ostringstream o;
        o.precision(17);
        if (p.method % 3 == 0) {
            FPMAMeshWriter<3, Index, Real> w;
            w.writeToStream(o, m);
        } else {
            VTKMeshWriter<3, Index, Real> w;
            w.writeHeader(o, "t");
            w.writeToStream(o, m, t);
            if (p.method % 3 == 1) w.writeToStream(o, m, t);
        }
        d.add(o.str());
    }
};
template <> struct Special<2> {
    template <typename MT> static void write(Digest& d, MT& m, const cases::Types<2>& t, const Param& p) {
        typedef typename MT::Vertex V;
        typedef typename std::remove_reference<decltype(std::declval<V>()[0])>::type Real;
        typedef typename std::decay<decltype(std::declval<V>().getIndex())>::type Index;
        std::ostringstream o;
        o.precision(17);
        VTKMeshWriter<2, Index, Real> w;
        w.writeHeader(o, "t");
        w.writeToStream(o, m, t);
        if (p.method % 3 == 1) w.writeToStream(o, m, t);
        d.add(o.str());
    }
};
template <unsigned D> struct Rec;
template <> struct Rec<3> { typedef Data3 type; };
template <> struct Rec<2> { typedef Data2 type; };

/// One operation; the mesh is not changed. The writers take the mesh as not constant (they refresh its
/// signature), so they get an own copy.
template <typename MT> uint64_t readOnly(const MT& m, const cases::Types<MT::meshDimension()>& types, const Param& p) {
    constexpr unsigned D = MT::meshDimension();
    Digest d;
    switch (p.what) {
    case 0:
        for (auto& v : m.getVertices()) d.add(v);
        for (auto& c : m.getCells()) {
            size_t b = c.getBoundaryElementIndex(), f = b, n = 0;
            do { d.add((uint64_t)f); d.add((uint64_t)m.getFaces()[f].getOtherCellIndex(c.getIndex())); f = m.getFaces()[f].getNextBElem(c.getIndex()); n++; } while (f != b && n < 10000);
            d.add(c.getCenter());
        }
        d.add((uint64_t)m.getSignature());
        break;
    case 1:
        switch (p.method % 3) {
        case 0: m.template apply<D, 0>([&d](size_t a, size_t b) { d.add((uint64_t)a); d.add((uint64_t)b); }); break;
        case 1: m.template apply<D - 1, D>([&d](size_t a, size_t b) { d.add((uint64_t)a); d.add((uint64_t)b); }); break;
        default: m.template apply<D, 1>([&d](size_t a, size_t b) { d.add((uint64_t)a); d.add((uint64_t)b); });
        }
        break;
    case 2: if (m.getCells().size()) m.template apply<D, 0>(p.start % m.getCells().size(), [&d](size_t a, size_t b) { d.add((uint64_t)a); d.add((uint64_t)b); }); break;
    case 3:
        switch (p.method % 4) {
        case 0: addAll(d, m.template connections<D, 0>().template getDataByPos<0>()); break;
        case 1: addAll(d, m.template connections<0, D>().template getDataByPos<0>()); break;
        case 2: addAll(d, m.template connections<D, D - 1, ORDER_ORIGINAL>().template getDataByPos<0>()); break;
        default: addAll(d, m.template connections<1, D, ORDER_ORIGINAL>().template getDataByPos<0>());
        }
        break;
    case 4:
        switch (p.method % 3) {
        case 0: addAll(d, m.template neighborhood<D, 0>().template getDataByPos<0>()); break;
        case 1: addAll(d, m.template neighborhood<D, D - 1, D, ORDER_ORIGINAL>().template getDataByPos<0>()); break;
        default: addAll(d, m.template neighborhood<D, D - 1>().template getDataByPos<0>());
        }
        break;
    case 5: if (p.method % 2) addAll(d, m.template coloring<D, 0>().template getDataByPos<0>()); else addAll(d, m.template coloring<D - 1, D>().template getDataByPos<0>()); break;
    case 6: if (p.method % 2) addAll(d, m.template coloring<D, D - 1, METHOD_RANDOM>(p.seed).template getDataByPos<0>()); else addAll(d, m.template coloring<D - 1, D, METHOD_RANDOM>(p.seed).template getDataByPos<0>()); break;
    case 7: if (p.method % 2) { auto r = computeCenters<METHOD_DEFAULT>(m); addAll(d, r.template getDataByDim<D>()); addAll(d, r.template getDataByDim<D - 1>()); }
            else { auto r = computeCenters<METHOD_TESSELLATED>(m); addAll(d, r.template getDataByDim<D>()); addAll(d, r.template getDataByDim<1>()); }
            break;
    case 8: if (p.method % 2) { auto r = m.computeElementMeasures(); addAll(d, r.template getDataByDim<D>()); addAll(d, r.template getDataByDim<1>()); }
            else { auto r = m.template computeElementMeasures<METHOD_TESSELLATED>(); addAll(d, r.template getDataByDim<D>()); addAll(d, r.template getDataByDim<D - 1>()); }
            break;
    case 9: if (p.method % 2) addAll(d, m.computeFaceNormals().template getDataByPos<0>()); else addAll(d, m.template computeFaceNormals<METHOD_TESSELLATED>().template getDataByPos<0>()); break;
    case 10: addAll(d, computeCellsDistance(m).template getDataByPos<0>()); addAll(d, computeCellsCenterDifference(m).template getDataByPos<0>()); break;
    case 11: { MT mm(m); Special<D>::write(d, mm, types, p); break; }
    case 12: {
        std::unique_ptr<MT> fresh(new MT);
        d.add((uint64_t)fresh->getSignature());
        MT a(m), b;
        b = a;
        a.clear();
        for (auto& f : b.getFaces()) { d.add((uint64_t)f.getCellLeftIndex()); d.add((uint64_t)f.getNextBElemWRTCL()); d.add(f.getCenter()); }
        b.setupBoundaryCells();
        d.add((uint64_t)b.getBoundaryCells().size());
        break;
    }
    case 13: {
        MeshDataContainer<std::tuple<double, unsigned>, D, 0> a(m), b(m, 2.5, 7u);
        for (auto& c : m.getCells()) a[c] = b[c] * (double)p.seed;
        for (auto& v : m.getVertices()) a[v] = b[v] + (unsigned)v.getIndex();
        auto e = b;
        e = a;
        addAll(d, e.template getDataByPos<0>());
        addAll(d, e.template getDataByPos<1>());
        break;
    }
    case 14: {
        typedef typename Rec<D>::type R;
        MeshDataContainer<R, D> x(m), y(m);
        for (auto& c : m.getCells()) { R r = R(); r.pressure = c.getIndex() + 0.5; r.colour = (int)c.getIndex() * (p.seed % 7); r.extra = p.seed; x[c] = r; }
        std::ostringstream o;
        MT mm(m);
        cases::writeAll<D>(o, mm, types, x, p.method % 2, "t");
        d.add(o.str());
        std::istringstream i(o.str());
        if (x.template getDataByPos<0>().size()) cases::readAll<D>(i, y, p.method % 2);
        for (auto& r : y.template getDataByPos<0>()) { if (p.method % 2) d.add(r.extra); else { d.add(r.pressure); d.add(r.colour); } }
        break;
    }
    }
    return d.h;
}
inline Param genParam(sim::Ctx& c) {
    Param p;
    p.what = (int)c.pick(OPS, "operation");
    p.method = (int)c.pick(12, "variant");
    p.seed = (unsigned)c.pick(1000, "seed");
    p.start = c.pick(64, "start");
    return p;
}
} // namespace meshops
#endif
