// C23: computed geometry follows the mesh through any history.
// BUILD: alloc
#include "geo.h"
#include "alloc.h"
#include <GTMesh/UnstructuredMesh/MeshFunctions/CellsDistance.h>
#include <GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h>
#include <GTMesh/UnstructuredMesh/MeshFunctions/EdgesOrientation.h>
using namespace geo;

const sim::HarnessInfo simHarness = {
    "C23", "exploration",
    "a run is a history of one mesh object: loads of generated meshes of planar-faced convex cells (boxes split into wedges and pyramids, merged, removed, under any regular affine map; 2D rectangles, triangles, pentagons), moves of the vertices, centre initialisation by either method, setup of boundary cells, copies; in between centres, measures, normals, distances, centre differences and edge orientations are computed (with drawn contents of fresh memory) and compared with the exact geometry of the mesh as it is then; non-trivial: geometry computed after a change of a mesh which had been computed before; distinct by history and shape",
    "ComputeCenters, ComputeMeasures, ComputeNormals, CellsDistance, ComputeCellsCenterDifference, EdgesOrientation, gramSchmidt, UnstructuredMesh, readers",
    "contents of fresh memory (simulated allocator)",
    "one operation",
    "measures, normals and distances use the centres stored in the mesh: they are compared when those are of the present vertices|the direction of 2D normals is compared for meshes with counter-clockwise cells",
    25000, 700000};

template <typename MT> struct Run {
    static constexpr unsigned D = MT::meshDimension();
    typedef typename std::remove_cv<typename std::remove_reference<decltype(std::declval<MT>().getVertices()[0][0])>::type>::type Real;
    Ctx& c;
    std::unique_ptr<MT> m{new MT()};
    GeoCase k;
    int centres = 0;       // stored centres: 0 not of the present mesh, 1 default, 2 tessellated
    bool boundary = false, boundaryCentres = false;
    double tol;
    Run(Ctx& x) : c(x) {}

    void near(const V3& got, const V3& want, const char* what, size_t i, double scale) {
        if (!((got - want).norm() <= tol * scale)) c.violate("wrong-geometry", "%s %zu is (%.10g, %.10g, %.10g) instead of (%.10g, %.10g, %.10g)", what, i, got.x, got.y, got.z, want.x, want.y, want.z);
    }
    void near(double got, double want, const char* what, size_t i, double scale) {
        if (!(std::fabs(got - want) <= tol * scale)) c.violate("wrong-geometry", "%s %zu is %.10g instead of %.10g", what, i, got, want);
    }
    void load() {
        k = D == 2 ? genGeo2(c) : genGeo3(c);
        Types<D> t;
        std::istringstream is(k.text);
        Load<D>::stream(k.fmt, is, *m, t);
        if (m->getCells().size() != k.cells) c.violate("wrong-mesh", "%zu cells were loaded instead of %zu", m->getCells().size(), k.cells);
        centres = 0; boundary = boundaryCentres = false;
        c.ev("load %s with %zu cells", name(k.fmt), k.cells);
    }
    void move() {
        // far from the origin or of an extreme size there is nothing to compare within rounding errors
        double far = 0, least = 1e300;
        for (auto& v : m->getVertices()) far = std::max(far, toV(v).norm());
        for (auto& e : m->getEdges()) least = std::min(least, (toV(m->getVertices()[e.getVertexAIndex()]) - toV(m->getVertices()[e.getVertexBIndex()])).norm());
        const double big = std::is_same<Real, float>::value ? 1e6 : 1e11;
        if (far > big || least < 1 / big || far / least > 1000) { load(); return; }
        Affine a = genAffine(c, D, D == 2);
        double size = std::exp2(std::floor(std::log2(far))); // shifts are of the size of the mesh
        for (unsigned i = 0; i < D; i++) a.t[i] *= size / 16;
        for (auto& v : m->getVertices()) {
            Pt p{{(double)v[0], (double)v[1], D == 3 ? (double)v[D - 1] : 0}};
            p = mapped(a, p);
            for (unsigned i = 0; i < D; i++) v[i] = (Real)p[i];
        }
        k.volume *= std::fabs(det(a));
        centres = 0; boundaryCentres = false;
        c.ev("move the vertices");
    }
    void turn() {
        switch (c.pick(3, "what to edit")) {
        case 0: c.ev("turn %zu faces", cases::turnFaces(c, *m)); break;
        case 1: c.ev("turn or permute edges %zu times", cases::shuffleEdges(c, *m, std::integral_constant<unsigned, D>())); break;
        case 2: c.ev("permute the boundary of %zu cells", cases::shuffleRings(c, *m)); break;
        }
    }
    void checkCentres(const Geometry& g, bool tess, const MakeMeshDataContainer_t<Vertex<D, Real>, make_custom_integer_sequence_t<unsigned int, 1, D>>& r) {
        for (size_t i = 0; i < g.edgeC.size(); i++) near(toV(r.template getDataByDim<1>()[i]), g.edgeC[i], "the centre of edge", i, g.scale);
        for (size_t i = 0; i < g.faceC.size(); i++) near(toV(r.template getDataByDim<D - 1>()[i]), tess ? g.faceT[i] : g.faceC[i], "the centre of face", i, g.scale);
        for (size_t i = 0; i < g.cellC.size(); i++) near(toV(r.template getDataByDim<D>()[i]), tess ? g.cellT[i] : g.cellC[i], "the centre of cell", i, g.scale);
    }
    void computeCentres(const Geometry& g, bool tess) {
        if (tess) checkCentres(g, true, m->template computeElementCenters<METHOD_TESSELLATED>());
        else checkCentres(g, false, m->template computeElementCenters<>());
        c.ev("compute centres%s", tess ? " by tessellation" : "");
    }
    void init(bool tess) {
        if (c.chance(1, 3, "given centres")) m->initializeCenters(tess ? m->template computeElementCenters<METHOD_TESSELLATED>() : m->template computeElementCenters<>());
        else if (tess) m->template initializeCenters<METHOD_TESSELLATED>();
        else m->initializeCenters();
        centres = tess ? 2 : 1;
        boundaryCentres = false;
        Geometry g = Compute<D>::of(*m, centres);
        for (size_t i = 0; i < g.faceC.size(); i++) near(toV(m->getFaces()[i].getCenter()), tess ? g.faceT[i] : g.faceC[i], "the stored centre of face", i, g.scale);
        for (size_t i = 0; i < g.cellC.size(); i++) near(toV(m->getCells()[i].getCenter()), tess ? g.cellT[i] : g.cellC[i], "the stored centre of cell", i, g.scale);
        c.ev("initialise centres%s", tess ? " by tessellation" : "");
    }
    void measures(const Geometry& g, bool tess) {
        const MT& cm = *m;
        auto r = tess ? cm.template computeElementMeasures<METHOD_TESSELLATED>() : cm.template computeElementMeasures<>();
        for (size_t i = 0; i < g.edgeM.size(); i++) near(r.template getDataByDim<1>()[i], g.edgeM[i], "the length of edge", i, g.scale);
        if (D == 3) for (size_t i = 0; i < g.faceM.size(); i++) near(r.template getDataByDim<D - 1>()[i], g.faceM[i], "the area of face", i, g.scale * g.scale);
        double sum = 0, s = D == 3 ? g.scale * g.scale * g.scale : g.scale * g.scale;
        for (size_t i = 0; i < g.cellM.size(); i++) { near(r.template getDataByDim<D>()[i], g.cellM[i], "the measure of cell", i, s); sum += r.template getDataByDim<D>()[i]; }
        if (!(std::fabs(sum - k.volume) <= 10 * tol * s * (1 + g.cellM.size()))) c.violate("wrong-geometry", "the measures of the cells add up to %.10g, the domain has %.10g", sum, k.volume);
        c.ev("compute measures%s", tess ? " by tessellation" : "");
    }
    void distances(const Geometry& g) {
        auto d = computeCellsDistance(*m);
        auto v = computeCellsCenterDifference(*m);
        auto& cc = centres == 2 ? g.cellT : g.cellC;
        auto& fc = centres == 2 ? g.faceT : g.faceC;
        for (size_t i = 0; i < m->getFaces().size(); i++) {
            auto& f = m->getFaces()[i];
            size_t l = f.getCellLeftIndex(), r = f.getCellRightIndex();
            V3 a = l < cc.size() ? cc[l] : fc[i], b = r < cc.size() ? cc[r] : fc[i];
            near((double)d.template getDataByPos<0>()[i], (a - b).norm(), "the distance over face", i, g.scale);
            near(toV(v.template getDataByPos<0>()[i]), b - a, "the centre difference over face", i, g.scale);
        }
        c.ev("compute distances");
    }
    void simulate();
};
template <unsigned D> struct NormalsOf;
template <> struct NormalsOf<2> {
    template <typename R> static void run(R& r, const Geometry& g) {
        auto n = r.c.chance(1, 2, "tessellated") ? r.m->template computeFaceNormals<METHOD_TESSELLATED>() : r.m->template computeFaceNormals<>();
        for (size_t i = 0; i < g.normal.size(); i++) {
            V3 v = toV(n.template getDataByPos<0>()[i]);
            if (!r.k.ccw && v.dot(g.normal[i]) < 0) v = v * -1;
            r.near(v, g.normal[i], "the normal of edge", i, 10);
        }
        r.c.ev("compute normals");
    }
    template <typename R> static void orientation(R& r, const Geometry& g) {
        auto& m = *r.m;
        size_t n = m.getFaces().size(), asked = 0;
        for (size_t i = 0; i < n; i++) {
            auto& f = m.getFaces()[i];
            for (size_t x : {(size_t)f.getCellLeftIndex(), (size_t)f.getCellRightIndex()}) {
                if (x >= m.getCells().size() || !r.c.chance(1, 4, "ask")) continue;
                V3 q = toV(m.getCells()[x].getCenter()), a = toV(m.getVertices()[f.getVertexAIndex()]) - q, b = toV(m.getVertices()[f.getVertexBIndex()]) - q;
                auto cell = m.getCells()[x].getIndex();
                if (edgeIsLeft(m, cell, f.getIndex()) != (a.cross(b).z > 0)) r.c.violate("wrong-orientation", "edge %zu of cell %zu has the wrong orientation", i, x);
                asked++;
            }
        }
        r.c.ev("compute %zu edge orientations", asked);
    }
};
template <> struct NormalsOf<3> {
    template <typename R> static void run(R& r, const Geometry& g) {
        bool tess = r.k.bumpy || r.c.chance(1, 2, "tessellated");
        auto n = tess ? r.m->template computeFaceNormals<METHOD_TESSELLATED>() : r.m->template computeFaceNormals<>();
        for (size_t i = 0; i < g.normal.size(); i++) r.near(toV(n.template getDataByPos<0>()[i]), tess ? g.normalT[i] : g.normal[i], "the normal of face", i, 10);
        r.c.ev("compute normals");
    }
    template <typename R> static void orientation(R& r, const Geometry& g) {
        if (r.k.bumpy) return;          // needs planar faces
        auto o = edgesOrientation(*r.m);
        for (size_t i = 0; i < g.normal.size(); i++) {
            auto& sub = r.m->getFaces()[i].getSubelements();
            if (o.template getDataByPos<0>()[i].size() != sub.size()) r.c.violate("wrong-size", "face %zu has %zu orientations and %zu edges", i, o.template getDataByPos<0>()[i].size(), (size_t)sub.size());
            for (size_t k = 0; k < sub.size(); k++) {
                auto& e = r.m->getEdges()[sub[k]];
                V3 a = toV(r.m->getVertices()[e.getVertexAIndex()]) - g.faceT[i], b = toV(r.m->getVertices()[e.getVertexBIndex()]) - g.faceT[i];
                bool want = a.cross(b).dot(g.normal[i]) > 0;
                if (r.c.chance(1, 12, "single") && edgeIsLeft(*r.m, r.m->getFaces()[i].getIndex(), e.getIndex()) != want) r.c.violate("wrong-orientation", "edge %zu of face %zu asked for alone has the wrong orientation", k, i);
                if (o.template getDataByPos<0>()[i][k] != want) r.c.violate("wrong-orientation", "edge %zu of face %zu has the wrong orientation", k, i);
            }
        }
        r.c.ev("compute edge orientations");
    }
};
template <typename MT> void Run<MT>::simulate() {
    tol = std::is_same<Real, float>::value ? 2e-4 : 1e-9;
    uint64_t hist = D;
    size_t ops = 3 + c.pick(10, "operations"), computed = 0;
    bool changedAfter = false, nontrivial = false;
    load();
    for (size_t n = 0; n < ops; n++) {
        c.step();
        // fresh memory: not-a-number, huge numbers, tags
        static const uint64_t words[] = {0xA5A5A5A5A5A5A5A5ULL, 0x7ff8000000000001ULL, 0x7fefffffffffffffULL, 0x3ff0000000000000ULL, 0x4059000042c80000ULL};
        sim::Alloc::fillWord(words[c.pick(5, "fresh memory")]);
        int op = (int)c.pick(12, "operation");
        hist = sim::mix64(hist, op * 8 + centres * 2 + boundary);
        if (op <= 6 && computed && changedAfter) nontrivial = true;
        if (op <= 6) { computed++; changedAfter = false; }
        else changedAfter = changedAfter || op != 11;
        switch (op) {
        case 0: computeCentres(Compute<D>::of(*m, centres), false); break;
        case 1: computeCentres(Compute<D>::of(*m, centres), true); break;
        case 2: case 3: if (!centres) init(op == 3); measures(Compute<D>::of(*m, centres), k.bumpy || c.chance(1, 3, "tessellated")); break;
        case 4: if (!centres) init(c.chance(1, 2, "tessellated")); NormalsOf<D>::run(*this, Compute<D>::of(*m, centres)); break;
        case 5:
            if (!centres) init(c.chance(1, 2, "tessellated"));
            if (boundary && !boundaryCentres) { m->setupBoundaryCellsCenters(); boundaryCentres = true; }
            distances(Compute<D>::of(*m, centres));
            break;
        case 6: if (!centres) init(c.chance(1, 2, "tessellated")); NormalsOf<D>::orientation(*this, Compute<D>::of(*m, centres)); break;
        case 7: move(); break;
        case 8: load(); break;
        case 10: turn(); break;
        case 9: init(c.chance(1, 2, "tessellated")); break;
        default:
            if (c.chance(1, 2, "copy")) { m.reset(new MT(*m)); c.ev("copy the mesh"); }
            else if (!boundary) { m->setupBoundaryCells(); boundary = true; boundaryCentres = false; c.ev("set up boundary cells"); }
            break;
        }
        hist = sim::mix64(hist, k.cells);
    }
    c.state(hist);
    if (nontrivial) c.nontrivial(sim::hashStr(k.text, hist));
}
void simRun(Ctx& c) {
    switch (c.pick(5, "configuration")) {
    case 0: Run<UnstructuredMesh<3, size_t, double>>(c).simulate(); break;
    case 1: Run<UnstructuredMesh<3, unsigned int, double, 8>>(c).simulate(); break;
    case 2: Run<UnstructuredMesh<2, size_t, double>>(c).simulate(); break;
    case 3: Run<UnstructuredMesh<3, unsigned short, float>>(c).simulate(); break;
    default: Run<UnstructuredMesh<2, unsigned short, float>>(c).simulate(); break;
    }
}
