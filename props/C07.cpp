// BUILD: alloc
// C07: what a writer writes does not depend on what it was used for before.
#include "vtkout.h"
#include "../sim/alloc.h"
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C07", "exploration",
    "a run is a history of one long-lived writer of each format: exports of several meshes, exports after changes of the mesh (moved vertices, moved centers, signs of zeros, relabelled vertices, turned or reordered faces, other mesh assigned, changed cell types, boundary cells, reload), exports which fail (sink stops accepting or throws, memory runs out), exports to files by UnstructuredMesh::write with switching of the format; every export that reports success must give exactly the bytes of a fresh writer, and cell data written with it must match as well; non-trivial: the writer was used before; distinct by history",
    "VTKMeshWriter<2>, VTKMeshWriter<3>, FPMAMeshWriter<3>, MeshElements signatures, UnstructuredMesh::write, VTKMeshDataWriter",
    "stream buffers and the open/write system calls (simulated)",
    "one operation",
    "the compared fresh writer is the same code, its correctness is C04 and C05",
    15000, 400000};

struct CellData { double id; Vector<3, double> v; };
MAKE_ATTRIBUTE_TRAIT(CellData, id, v);
struct CellData2 { double id; Vector<2, double> v; };
MAKE_ATTRIBUTE_TRAIT(CellData2, id, v);

template <unsigned D> struct DataOf;
template <> struct DataOf<3> { typedef CellData type; };
template <> struct DataOf<2> { typedef CellData2 type; };

template <typename MT> static void setTypes(MT& m, Types<3>& t, const WritePlan& p) { t = makeTypes3(m, p); }
template <typename MT> static void setTypes(MT& m, Types<2>& t, const WritePlan& p) { t = makeTypes2(m, p); }

template <typename MT> struct World {
    static constexpr unsigned D = MT::meshDimension();
    Ctx& c;
    struct Item { Case k; WritePlan plan; MT mesh; };
    std::vector<std::unique_ptr<Item>> items;
    VTKMeshWriter<D> vtk;
    std::unique_ptr<MeshWriter<D>> fileWriter;
    uint64_t hist = 0;
    int uses = 0;
    explicit World(Ctx& cc) : c(cc) {}

    template <typename W> std::string vtkBytes(W& w, Item& it, const Types<D>& types, bool data) {
        std::ostringstream o;
        w.writeHeader(o, "t");
        w.writeToStream(o, it.mesh, types);
        if (data && it.mesh.getCells().size() > 0) o << dataBytes(w, it);
        return o.str();
    }
    template <typename W> std::string dataBytes(W& w, Item& it) {
        typedef typename DataOf<D>::type T;
        MeshDataContainer<T, D> data(it.mesh);
        for (size_t i = 0; i < it.mesh.getCells().size(); i++) {
            T& x = data.template getDataByPos<0>().at(i);
            x.id = i + 0.5;
            for (unsigned j = 0; j < D; j++) x.v[j] = i * 10 + j;
        }
        std::ostringstream o;
        VTKMeshDataWriter<D>::writeToStream(o, data, w, std::tuple<>());
        return o.str();
    }
    void make() {
        std::unique_ptr<Item> it(new Item);
        gen(*it, std::integral_constant<unsigned, D>());
        std::istringstream is(it->k.text);
        Types<D> t;
        Load<D>::stream(it->k.fmt, is, it->mesh, t);
        modify(c, it->mesh);
        it->mesh.initializeCenters();
        c.ev("mesh %zu: %s", items.size(), describe(it->k).c_str());
        hist = sim::mix64(hist, signature(it->k));
        items.push_back(std::move(it));
    }
    void gen(Item& it, std::integral_constant<unsigned, 2>) {
        GenOpt o; o.small2 = 5; o.big2 = 30;
        it.k = genCase(c, VTK2, o);
        for (auto& x : it.k.m2.cells) it.plan.types.push_back(x.type);
    }
    void gen(Item& it, std::integral_constant<unsigned, 3>) {
        Source3 s = genSource3(c, 3, 12, !HasReserve<MT>::value);
        needTypes(s);
        it.k = s.k;
        it.plan = s.plan;
    }
    void change(Item& it, size_t i) {
        MT& m = it.mesh;
        switch (c.pick(14, "change")) {
        case 0: { // move one vertex
            size_t v = c.pick(m.getVertices().size(), "vertex");
            unsigned k = c.pick(D, "coordinate");
            c.ev("move vertex %zu of mesh %zu", v, i);
            m.getVertices()[v][k] += (c.pick(2, "amount") ? 1 : -1) * 0.5;
            break;
        }
        case 1: { // exchange the coordinates of two vertices
            size_t a = c.pick(m.getVertices().size(), "vertex"), b = c.pick(m.getVertices().size(), "vertex");
            c.ev("exchange vertices %zu and %zu of mesh %zu", a, b, i);
            for (unsigned k = 0; k < D; k++) { double t = m.getVertices()[a][k]; m.getVertices()[a][k] = m.getVertices()[b][k]; m.getVertices()[b][k] = t; }
            break;
        }
        case 2: c.ev("recompute centers of mesh %zu", i); m.initializeCenters(); break;
        case 3: { // move the center of a cell
            size_t x = c.pick(m.getCells().size(), "cell");
            c.ev("move the center of cell %zu of mesh %zu", x, i);
            auto ctr = m.getCells()[x].getCenter();
            ctr[0] += 0.25;
            m.getCells()[x].setCenter(ctr);
            break;
        }
        case 4: { // swap the vertices of an edge: the mesh has changed although its shape has not
            size_t e = c.pick(m.getEdges().size(), "edge");
            c.ev("reverse edge %zu of mesh %zu", e, i);
            if (D == 2) { break; }
            size_t a = m.getEdges()[e].getVertexAIndex(), b = m.getEdges()[e].getVertexBIndex();
            m.getEdges()[e].setVertexAIndex(b);
            m.getEdges()[e].setVertexBIndex(a);
            break;
        }
        case 5: { // other types
            if (D == 2) { for (auto& t : it.plan.types) if (c.chance(1, 3, "polygon")) t = VTK_POLY; c.ev("change cell types of mesh %zu", i); break; }
            std::vector<int> orig;
            if (it.k.fmt == VTK3) for (auto& x : it.k.m3.cells) orig.push_back(x.type);
            else orig = it.plan.types;
            for (size_t j = 0; j < orig.size(); j++) it.plan.types[j] = c.chance(1, 2, "polyhedron") ? 0 : orig[j];
            c.ev("change cell types of mesh %zu", i);
            break;
        }
        case 6: { // the object gets another mesh
            c.ev("mesh %zu gets another content", i);
            std::unique_ptr<Item> n(new Item);
            gen(*n, std::integral_constant<unsigned, D>());
            it.k = n->k;
            it.plan = n->plan;
            std::istringstream is(it.k.text);
            Types<D> t;
            Load<D>::stream(it.k.fmt, is, it.mesh, t);
            if (c.chance(3, 4, "centers")) it.mesh.initializeCenters();
            break;
        }
        case 7: { // move the center of a face
            size_t x = c.pick(m.getFaces().size(), "face");
            c.ev("move the center of face %zu of mesh %zu", x, i);
            auto ctr = m.getFaces()[x].getCenter();
            ctr[1] += 0.125;
            m.getFaces()[x].setCenter(ctr);
            break;
        }
        case 8: { // the sign of zeros
            bool v = c.chance(1, 2, "of vertices");
            c.ev("turn the signs of zeros of the %s of mesh %zu", v ? "vertices" : "centers", i);
            auto flip = [&](double& x) { if (x == 0 && c.chance(1, 2, "turn")) x = -x; };
            if (v) for (auto& x : m.getVertices()) for (unsigned k = 0; k < D; k++) flip(x[k]);
            else {
                for (auto& x : m.getCells()) { auto t = x.getCenter(); for (unsigned k = 0; k < D; k++) flip(t[k]); x.setCenter(t); }
                for (auto& x : m.getFaces()) { auto t = x.getCenter(); for (unsigned k = 0; k < D; k++) flip(t[k]); x.setCenter(t); }
            }
            break;
        }
        case 9: { // a cell starts with another face
            size_t x = c.pick(m.getCells().size(), "cell");
            auto& cell = m.getCells()[x];
            c.ev("cell %zu of mesh %zu starts with another face", x, i);
            for (size_t k = 1 + c.pick(4, "steps"); k-- > 0;) cell.setBoundaryElementIndex(m.getFaces()[cell.getBoundaryElementIndex()].getNextBElem(x));
            break;
        }
        case 10: { // a cell visits its faces in another order
            size_t x = c.pick(m.getCells().size(), "cell");
            c.ev("cell %zu of mesh %zu visits its faces in another order", x, i);
            std::vector<size_t> fs;
            size_t first = m.getCells()[x].getBoundaryElementIndex(), f = first;
            do { fs.push_back(f); f = m.getFaces()[f].getNextBElem(x); } while (f != first);
            if (D == 2 || c.chance(1, 2, "backwards")) std::reverse(fs.begin() + 1, fs.end());
            else for (size_t k = fs.size() - 1; k > 1; k--) std::swap(fs[k], fs[1 + c.pick(k, "order")]);
            for (size_t k = 0; k < fs.size(); k++) m.getFaces()[fs[k]].setNextBElem(fs[(k + 1) % fs.size()], x);
            break;
        }
        case 11: { // the edges of a face are listed in another order
            size_t x = c.pick(m.getFaces().size(), "face");
            c.ev("face %zu of mesh %zu lists its edges in another order", x, i);
            reorder(m.getFaces()[x], std::integral_constant<unsigned, D>());
            break;
        }
        case 12: c.ev("turn %zu faces of mesh %zu", turnFaces(c, m), i); break;
        case 13: {
            size_t j = c.pick(items.size() + 1, "source");
            if (j >= items.size()) { c.ev("boundary cells of mesh %zu", i); m.setupBoundaryCells(); break; }
            c.ev("mesh %zu becomes a copy of mesh %zu", i, j);
            m = items[j]->mesh;
            it.k = items[j]->k;
            it.plan = items[j]->plan;
            break;
        }
        }
    }
    template <typename F> void reorder(F&, std::integral_constant<unsigned, 2>) {}
    template <typename F> void reorder(F& f, std::integral_constant<unsigned, 3>) {
        auto& s = f.getSubelements();
        if (c.chance(1, 2, "backwards")) std::reverse(s.begin(), s.end());
        else std::rotate(s.begin(), s.begin() + 1 + c.pick(s.size() - 1, "by"), s.end());
    }
    void same(const std::string& got, const std::string& want, const char* what) {
        if (got != want) c.violate("history-dependent-output", "%s: a writer used before wrote other bytes than a fresh one (reused vs fresh): %s", what, diffLine(got, want).c_str());
        if (uses++ > 0) c.nontrivial(hist);
    }
    void op() {
        size_t i = c.pick(items.size(), "mesh");
        Item& it = *items[i];
        int o = c.pick(7, "operation");
        hist = sim::mix64(hist, o * 8 + i);
        c.step();
        Types<D> types;
        setTypes(it.mesh, types, it.plan);
        switch (o) {
        case 0: case 1: {
            bool data = c.chance(1, 3, "with data");
            c.ev("write mesh %zu as VTK%s", i, data ? " with cell data" : "");
            VTKMeshWriter<D> f;
            std::string got = vtkBytes(vtk, it, types, data);
            same(got, vtkBytes(f, it, types, data), "VTK export");
            break;
        }
        case 2: fpmaOp(it, i, false); break;
        case 3: { // failing export
            bool fp = D == 3 && c.chance(1, 2, "FPMA");
            sim::SimOut out;
            out.failAt = c.pick(300, "sink fails at");
            out.throwing = c.chance(1, 2, "throwing sink");
            std::ostream os(&out);
            if (c.chance(1, 2, "stream throws")) os.exceptions(std::ios::badbit | std::ios::failbit);
            bool memory = c.chance(1, 3, "by memory");
            c.ev("failing export of mesh %zu as %s", i, fp ? "FPMA" : "VTK");
            if (memory) { out.failAt = -1; sim::Alloc::arm(1 + c.skew(80, "failing allocation"), c.chance(1, 3, "persistent")); }
            try {
                if (fp) fpmaFail(os, it);
                else { vtk.writeHeader(os, "t"); vtk.writeToStream(os, it.mesh, types); }
            } catch (const std::exception&) {}
            if (memory && sim::Alloc::fired()) c.probe("export out of memory");
            sim::Alloc::disarm();
            c.probe("export failed", out.failures > 0);
            break;
        }
        case 4: change(it, i); break;
        case 5: { // export with types that do not fit: fails inside the indexing
            c.ev("export of mesh %zu with too few cell types", i);
            Types<D> bad;
            for (size_t j = 0; j < it.plan.types.size() / 2; j++) bad.template getDataByPos<0>().push_back(types.template getDataByPos<0>().at(j));
            std::ostringstream os;
            try { vtk.writeToStream(os, it.mesh, bad); } catch (const std::exception&) { c.probe("export threw"); }
            break;
        }
        case 6: { // through files, the writer is passed along and switches its format
            sim::enterScratch(c);
            bool fp = D == 3 && c.chance(1, 2, "FPMA");
            const char* f = fp ? "a.fpma" : "a.vtk";
            c.ev("write mesh %zu to %s with the writer of the previous file", i, f);
            it.mesh.write(f, fileWriter, types, "t");
            std::string got, want;
            sim::readFile(f, got);
            it.mesh.write(f, types, "t");
            sim::readFile(f, want);
            if (!fileWriter) c.violate("no-writer", "write left no writer");
            same(got, want, "export to a file");
            break;
        }
        }
    }
    void fpmaOp(Item& it, size_t i, bool) { fpmaDo(it, i, std::integral_constant<unsigned, D>()); }
    void fpmaDo(Item&, size_t, std::integral_constant<unsigned, 2>) {}
    FPMAMeshWriter<3> fpma;
    void fpmaDo(Item& it, size_t i, std::integral_constant<unsigned, 3>) {
        c.ev("write mesh %zu as FPMA", i);
        std::ostringstream a, b;
        FPMAMeshWriter<3> f;
        fpma.writeToStream(a, it.mesh);
        f.writeToStream(b, it.mesh);
        same(a.str(), b.str(), "FPMA export");
    }
    void fpmaFail(std::ostream& os, Item& it) { fpmaFailDo(os, it, std::integral_constant<unsigned, D>()); }
    void fpmaFailDo(std::ostream&, Item&, std::integral_constant<unsigned, 2>) {}
    void fpmaFailDo(std::ostream& os, Item& it, std::integral_constant<unsigned, 3>) { fpma.writeToStream(os, it.mesh); }
    void run() {
        size_t n = 1 + c.pick(2, "meshes");
        for (size_t i = 0; i < n; i++) make();
        size_t ops = 2 + c.skew(10, "operations");
        for (size_t i = 0; i < ops; i++) { op(); c.state(hist); }
        Item& it = *items[0];
        Types<D> types;
        setTypes(it.mesh, types, it.plan);
        VTKMeshWriter<D> f;
        c.ev("final VTK export of mesh 0");
        std::string got = vtkBytes(vtk, it, types, false);
        same(got, vtkBytes(f, it, types, false), "final VTK export");
        fpmaOp(it, 0, true);
    }
};

void simRun(Ctx& c) {
    switch (c.pick(3, "mesh kind")) {
    case 0: { World<UnstructuredMesh<3, size_t, double>> w(c); w.run(); break; }
    case 1: { World<UnstructuredMesh<2, size_t, double>> w(c); w.run(); break; }
    case 2: { World<UnstructuredMesh<3, size_t, double, 6>> w(c); w.run(); break; }
    }
}
