// C03: what a load yields does not depend on what the mesh and the reader were used for before.
#include "cases.h"
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C03", "exploration",
    "a run is a history of operations on one or two mesh objects and long-lived readers: loads of generated files (stream or file), loads that fail by truncation, read errors or unsupported content, boundary cell setup, center initialisation, export, clear, copy, move and swap; after every successful load the whole mesh (elements, numbering, boundary rings, boundary cells, centers, cell types) must equal a load of the same bytes by a fresh reader into a fresh mesh; non-trivial: at least one operation precedes a successful load; distinct by history",
    "VTKMeshReader<2>, VTKMeshReader<3>, FPMAMeshReader<3>, MeshElements, UnstructuredMesh, setupBoundaryCells, initializeCenters, VTKMeshWriter",
    "stream buffers and the read/open/lseek system calls (simulated)",
    "one operation on a mesh or reader",
    "",
    25000, 700000};

template <unsigned D> struct Readers;
template <> struct Readers<2> {
    VTKMeshReader<2> vtk;
    template <typename MT> void load(int, std::istream& is, MT& m) { vtk.loadFromStream(is, m); }
    Types<2> types(int) const { return vtk.getCellTypes(); }
};
template <> struct Readers<3> {
    VTKMeshReader<3> vtk;
    FPMAMeshReader<3> fpma;
    template <typename MT> void load(int fmt, std::istream& is, MT& m) { if (fmt == VTK3) vtk.loadFromStream(is, m); else fpma.loadFromStream(is, m); }
    Types<3> types(int fmt) const { return fmt == VTK3 ? vtk.getCellTypes() : fpma.getCellTypes(); }
};

template <typename MT> struct World {
    static constexpr unsigned D = MT::meshDimension();
    Ctx& c;
    std::vector<Case> files;
    MT mesh[2];
    std::string known[2];      // expected dump, empty when unknown
    Readers<D> readers[2];
    bool dirty = false;
    uint64_t hist = 0;
    std::vector<int> fmts;

    explicit World(Ctx& cc) : c(cc) {}

    void fresh(const Case& k, std::string& d, std::string& t) {
        MT m;
        Readers<D> r;
        std::istringstream is(k.text);
        r.load(k.fmt, is, m);
        d = dump(m);
        t = dumpTypes(r.types(k.fmt));
    }
    void compare(const Case& k, int mi, const Types<D>& types, const char* how) {
        std::string d, t, got = dump(mesh[mi]);
        fresh(k, d, t);
        if (got != d) c.violate("history-dependent-mesh", "%s: the mesh differs from a fresh load of the same file (reused vs fresh): %s", how, diffLine(got, d).c_str());
        std::string gt = dumpTypes(types);
        if (gt != t) c.violate("history-dependent-types", "%s: the cell types differ from a fresh load (reused vs fresh): %s vs %s", how, gt.substr(0, 200).c_str(), t.substr(0, 200).c_str());
        auto sig = mesh[mi].getSignature();
        if (mesh[mi].updateSignature() != sig) c.violate("stale-signature", "%s: the signature after the load is not the signature of the loaded mesh", how);
        known[mi] = got;
    }
    void steady(int mi, const char* after) {
        if (known[mi].empty()) return;
        std::string got = dump(mesh[mi]);
        if (got != known[mi]) c.violate("unrelated-change", "%s changed a mesh it does not concern: %s", after, diffLine(got, known[mi]).c_str());
    }
    void op() {
        size_t ki = c.pick(files.size(), "file");
        const Case& k = files[ki];
        int mi = c.chance(1, 4, "second mesh") ? 1 : 0;
        int o = c.pick(11, "operation");
        c.step();
        hist = sim::mix64(hist, o * 64 + ki * 2 + mi);
        switch (o) {
        case 0: case 1: { // load from a stream, reused reader
            int ri = c.pick(3, "reader");
            sim::SimIn in(k.text);
            drawChunks(c, in);
            std::istream is(&in);
            Types<D> types;
            c.ev("load file %zu into mesh %d by %s", ki, mi, ri == 2 ? "a fresh reader" : ri ? "reader 1" : "reader 0");
            if (ri == 2) { Readers<D> r; r.load(k.fmt, is, mesh[mi]); types = r.types(k.fmt); }
            else { readers[ri].load(k.fmt, is, mesh[mi]); types = readers[ri].types(k.fmt); }
            compare(k, mi, types, "load from a stream");
            if (dirty) c.nontrivial(hist);
            break;
        }
        case 2: { // load from a file
            sim::enterScratch(c);
            sim::writeFile(fileName(k.fmt), k.text);
            c.ev("load file %zu into mesh %d by load()", ki, mi);
            sim::FilePlan p = benignPlan(c);
        drawLocale(c, p);
            sim::FileSim::arm(p);
            auto r = mesh[mi].load(fileName(k.fmt));
            sim::FileSim::disarm();
            compare(k, mi, r->getCellTypes(), "load from a file");
            if (dirty) c.nontrivial(hist);
            break;
        }
        case 3: case 4: { // failing load
            int ri = c.pick(2, "reader");
            std::string text = k.text;
            sim::SimIn in("");
            size_t at = c.pick(text.size(), "position");
            int f = c.pick(3, "failure");
            c.ev("failing load of file %zu into mesh %d by reader %d (%s at %zu)", ki, mi, ri, f == 0 ? "truncated" : f == 1 ? "read error" : "garbage", at);
            if (f == 2) text = text.substr(0, at) + " x " + text.substr(at);
            in.data = text;
            if (f == 0) in.eofAt = at;
            if (f == 1) in.errAt = at;
            std::istream is(&in);
            known[mi].clear();
            bool threw = false;
            try { readers[ri].load(k.fmt, is, mesh[mi]); } catch (const std::exception&) { threw = true; c.probe("load failed"); }
            c.mix(threw);
            break;
        }
        case 5:
            c.ev("setup boundary cells of mesh %d", mi);
            if (known[mi].empty()) break;
            mesh[mi].setupBoundaryCells();
            c.probe("boundary cells set up");
            known[mi].clear();
            known[mi] = dump(mesh[mi]);
            break;
        case 6:
            c.ev("initialize centers of mesh %d", mi);
            if (known[mi].empty()) break;
            mesh[mi].initializeCenters();
            known[mi] = dump(mesh[mi]);
            break;
        case 7:
            c.ev("clear mesh %d", mi);
            mesh[mi].clear();
            { MT e; known[mi] = dump(mesh[mi]); if (known[mi] != dump(e)) c.violate("clear", "a cleared mesh is not empty: %s", diffLine(known[mi], dump(e)).c_str()); }
            break;
        case 8: {
            c.ev("copy mesh %d to %d", mi, 1 - mi);
            mesh[1 - mi] = mesh[mi];
            known[1 - mi] = known[mi];
            steady(1 - mi, "copy");
            c.probe("mesh copied");
            break;
        }
        case 9: {
            c.ev("move mesh %d away and back", mi);
            MT t(std::move(mesh[mi]));
            mesh[mi] = std::move(t);
            break;
        }
        case 10: {
            c.ev("swap the meshes");
            std::swap(mesh[0], mesh[1]);
            std::swap(known[0], known[1]);
            break;
        }
        }
        dirty = true;
        steady(0, "the operation");
        steady(1, "the operation");
    }
    void run(std::vector<int> allowed) {
        GenOpt o;
        o.small3 = 4; o.big3 = 15; o.small2 = 6; o.big2 = 30;
        o.template forMesh<MT>();
        size_t n = 1 + c.pick(3, "files");
        for (size_t i = 0; i < n; i++) {
            files.push_back(genCase(c, c.of(allowed, "format"), o));
            c.ev("file %zu: %s", i, describe(files.back()).c_str());
        }
        size_t ops = 1 + c.skew(10, "operations");
        for (size_t i = 0; i < ops; i++) { op(); c.state(hist); }
        // the last operation is a load which must be as fresh
        op2();
    }
    void op2() {
        const Case& k = files[c.pick(files.size(), "file")];
        std::istringstream is(k.text);
        c.ev("final load into mesh 0 by reader 0");
        readers[0].load(k.fmt, is, mesh[0]);
        compare(k, 0, readers[0].types(k.fmt), "final load");
        checkLoaded(c, mesh[0], readers[0].types(k.fmt), k, "final load");
        c.nontrivial(sim::mix64(hist, signature(k)));
    }
};

void simRun(Ctx& c) {
    switch (c.pick(5, "mesh kind")) {
    case 0: { World<UnstructuredMesh<3, size_t, double>> w(c); w.run({VTK3, FPMA3}); break; }
    case 1: { World<UnstructuredMesh<2, size_t, double>> w(c); w.run({VTK2}); break; }
    case 2: { World<UnstructuredMesh<3, size_t, double, 6>> w(c); w.run({VTK3, FPMA3}); break; }
    case 3: { World<UnstructuredMesh<3, unsigned int, float>> w(c); w.run({FPMA3, VTK3}); break; }
    case 4: { World<UnstructuredMesh<2, unsigned int, float>> w(c); w.run({VTK2}); break; }
    }
}
