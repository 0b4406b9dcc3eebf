// C17: concurrent reading of one mesh is safe.
// BUILD: tsan
#include "meshops.h"
#include "threads.h"
using namespace cases;
using namespace meshops;
using sim::Sched;

const sim::HarnessInfo simHarness = {
    "C17", "exploration",
    "a run loads a generated mesh and lets two to four simulated threads perform one to three read-only operations each on it at the same time (iteration, apply, connections, neighbourhoods, colourings, centers, measures, normals, distances, copy, export of a copy with an own writer, containers, cell data with own data), the scheduler switches at drawn memory accesses; each operation must give what it gives alone (computed before or after), the mesh must be unchanged, no two accesses of different threads to the same memory, one of them a write, may be unordered; non-trivial: at least two threads; distinct by interleaving",
    "MeshElements, MeshApply, MeshConnections, MeshNeighborhood, MeshColoring, ComputeCenters, ComputeMeasures, ComputeNormals, CellsDistance, VTKMeshWriter, FPMAMeshWriter, MeshDataContainer, VTKMeshDataWriter, VTKMeshDataReader, templates of the C++ library",
    "threads (one at a time, chosen by the tape), locks and guards of the C++ run time, memory allocator (simulated)",
    "one switch of threads",
    "sequentially consistent memory with happens-before race detection|code inside of shared libraries is not instrumented",
    8000, 400000};

template <typename MT> static void world(Ctx& c, int fmt) {
    constexpr unsigned D = MT::meshDimension();
    GenOpt o;
    o.small3 = 3; o.big3 = 6; o.small2 = 4; o.big2 = 12; o.maxPoly = 6;
    Case k = genCase(c, fmt, o);
    MT mesh;
    Types<D> types;
    std::istringstream is(k.text);
    Load<D>::stream(fmt, is, mesh, types);
    mesh.initializeCenters();
    if (c.chance(1, 4, "boundary cells")) { mesh.setupBoundaryCells(); mesh.setupBoundaryCellsCenters(); }
    mesh.updateSignature();
    std::string before = dump(mesh) + dumpTypes(types);
    size_t n = 2 + c.pick(3, "threads");
    std::vector<std::vector<Param>> plan(n);
    std::vector<std::vector<uint64_t>> got(n), want(n);
    bool same = c.chance(1, 2, "the same operation");
    Param one = genParam(c);
    for (size_t t = 0; t < n; t++) {
        size_t s = 1 + c.pick(3, "operations");
        for (size_t i = 0; i < s; i++) {
            Param p = genParam(c);
            if (same) { p.what = one.what; if (c.chance(1, 2, "the same variant")) p.method = one.method; }
            plan[t].push_back(p);
            c.ev("thread %zu: %s %d", t, opName(p.what), p.method);
            c.probe(opName(p.what));
        }
        got[t].resize(s);
        want[t].resize(s);
    }
    auto alone = [&] { for (size_t t = 0; t < n; t++) for (size_t i = 0; i < plan[t].size(); i++) want[t][i] = readOnly(mesh, types, plan[t][i]); };
    bool first = c.chance(1, 2, "alone first");
    if (first) alone();
    std::vector<std::function<void()>> fns;
    for (size_t t = 0; t < n; t++) {
        const std::vector<Param>* p = &plan[t];
        uint64_t* out = got[t].data();
        const MT* m = &mesh;
        Types<D>* ty = &types;
        fns.push_back([p, out, m, ty] { for (size_t i = 0; i < p->size(); i++) out[i] = readOnly(*m, *ty, (*p)[i]); });
    }
    c.ev("%s", describe(k).c_str());
    Sched::run(c, fns);
    if (!first) alone();
    for (size_t t = 0; t < n; t++) for (size_t i = 0; i < plan[t].size(); i++)
        if (got[t][i] != want[t][i]) c.violate("wrong-result", "thread %zu: %s (variant %d) gave another result than alone", t, opName(plan[t][i].what), plan[t][i].method);
    if (dump(mesh) + dumpTypes(types) != before) c.violate("mesh-changed", "the mesh changed: %s", diffLine(before, dump(mesh) + dumpTypes(types)).c_str());
    c.nontrivial(c.hash());
}
void simRun(Ctx& c) {
    model::largeMeshes() = false;
    switch (c.pick(5, "mesh kind")) {
    case 0: world<UnstructuredMesh<2, size_t, double>>(c, VTK2); break;
    case 1: world<UnstructuredMesh<3, size_t, double>>(c, VTK3); break;
    case 2: world<UnstructuredMesh<3, size_t, double>>(c, FPMA3); break;
    case 3: world<UnstructuredMesh<3, unsigned int, double, 8>>(c, FPMA3); break;
    case 4: world<UnstructuredMesh<2, unsigned short, float>>(c, VTK2); break;
    }
}
