// C02: the loaded mesh is what the file describes, however its bytes are delivered.
#include "cases.h"
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C02", "exploration",
    "a run generates a mesh (glued cells of all kinds, grids, polygons, polyhedra; permuted and unused vertices; varied text layout), delivers its file in chunks chosen by the seed through a simulated stream or simulated system calls and compares the loaded topology with the model; non-trivial: at least 2 cells sharing a face; distinct by topology and delivery",
    "VTKMeshReader<2>, VTKMeshReader<3>, FPMAMeshReader<3>, MeshElements, UnstructuredMesh::load, std::istream, std::filebuf",
    "stream buffers and the read/open/lseek system calls (simulated)",
    "one delivery of bytes",
    "vertices of a file are given before cells; every face belongs to at most two cells; coordinates have at most 6 significant digits|the reference model of element topology (sim/model.h) is right",
    60000, 1500000};

template <typename MT> static void one(Ctx& c, int fmt) {
    constexpr unsigned D = MT::meshDimension();
    Case k = genCase(c, fmt, GenOpt().forMesh<MT>());
    c.ev("%s", describe(k).c_str());
    MT mesh;
    uint64_t delivery = 0;
    Types<D> types;
    if (c.chance(1, 4, "through a file")) {
        sim::enterScratch(c);
        sim::writeFile(fileName(fmt), k.text);
        sim::FilePlan p = benignPlan(c);
        drawLocale(c, p);
        c.ev("load %s, reads of at most %llu bytes, interrupt every %llu", fileName(fmt), (unsigned long long)p.shortReadMax, (unsigned long long)p.eintrEvery);
        sim::FileSim::arm(p);
        auto r = mesh.load(fileName(fmt));
        sim::FileSim::disarm();
        sim::FileSim::report(c);
        c.step(sim::FileSim::reads);
        if (!r) c.violate("no-reader", "load of %s returned no reader", fileName(fmt));
        types = r->getCellTypes();
        if (sim::FileSim::openFds()) c.violate("open-file", "load left a file open");
        delivery = sim::mix64(p.shortReadMax, p.eintrEvery);
    } else {
        sim::SimIn in(k.text);
        drawChunks(c, in);
        c.ev("stream, chunks of at most %zu bytes", in.chunk);
        std::istream is(&in);
        Load<D>::stream(fmt, is, mesh, types);
        c.step(in.refills);
        delivery = sim::mix64(in.chunk, in.chunkSeed);
    }
    checkLoaded(c, mesh, types, k, name(fmt));
    c.mix(dump(mesh));
    c.state(signature(k));
    bool shared = false;
    for (auto& f : k.topo.faceCells) shared |= f.second.size() == 2;
    if (shared) c.nontrivial(sim::mix64(delivery, signature(k)));
    if (k.topo.cellFaces.size() > 20) c.probe("mesh with more than 20 cells");
}

void simRun(Ctx& c) {
    switch (c.pick(8, "mesh kind")) {
    case 0: one<UnstructuredMesh<2, size_t, double>>(c, VTK2); break;
    case 1: one<UnstructuredMesh<3, size_t, double>>(c, VTK3); break;
    case 2: one<UnstructuredMesh<3, size_t, double, 6>>(c, FPMA3); break;
    case 3: one<UnstructuredMesh<2, unsigned int, float>>(c, VTK2); break;
    case 4: one<UnstructuredMesh<3, unsigned int, double, 4>>(c, VTK3); break;
    case 5: one<UnstructuredMesh<3, unsigned int, double>>(c, FPMA3); break;
    case 6: model::largeMeshes() = false; one<UnstructuredMesh<3, unsigned short, float, 4>>(c, VTK3); break;
    case 7: model::largeMeshes() = false; one<UnstructuredMesh<2, unsigned short, double>>(c, VTK2); break;
    }
}
