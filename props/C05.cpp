// C05: a mesh written to FPMA is described completely and exactly by the file and is read back.
#include "vtkout.h"
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C05", "exploration",
    "a run loads a generated 3D mesh (polyhedra with arbitrary order of faces and edges, or VTK cells), writes it as FPMA through a simulated sink or simulated system calls (put areas of all sizes, short writes, interrupted calls, precision 6 to 17), checks the text by an independent parser against the model and reads it back; non-trivial: the mesh has a face shared by two cells; distinct by mesh and delivery",
    "FPMAMeshWriter<3>, FPMAMeshReader<3>, VTKMeshReader<3>, UnstructuredMesh::write/load, MeshConnections, std::ostream, std::filebuf",
    "stream buffers and the open/write/read system calls (simulated)",
    "one delivery of bytes",
    "coordinates are written with the precision of the stream (6 digits by default)",
    40000, 1000000};

static void doWrite(UnstructuredMesh<3, size_t, double>& m, const std::string& file) { m.write(file); }
static void doWrite(UnstructuredMesh<3, size_t, double, 6>& m, const std::string& file) { m.write(file); }
template <typename MT> static void doWrite(MT&, const std::string&) {}

template <typename MT, typename IT, typename Real> static void one(Ctx& c, bool viaFile) {
    GenOpt o;
    o.forMesh<MT>();
    Case k = genCase(c, c.chance(1, 3, "from VTK") ? VTK3 : FPMA3, o);
    MT mesh;
    Types<3> dummy;
    std::istringstream is(k.text);
    Load<3>::stream(k.fmt, is, mesh, dummy);
    std::vector<Pt> pts = k.topo.pts;
    int digits = 6;
    if (!viaFile && c.chance(1, 3, "full precision")) {
        digits = sizeof(Real) == 4 ? 9 : 17;
        for (size_t i = 0; i < pts.size(); i++) for (int j = 0; j < 3; j++) {
            pts[i][j] = static_cast<Real>(pts[i][j] + static_cast<double>(c.pick(1000003, "fraction")) / 1000003.0);
            mesh.getVertices()[i][j] = static_cast<Real>(pts[i][j]);
        }
    }
    modify(c, mesh);
    std::string before = dump(mesh), text, file;
    c.ev("%s, written %s, %d digits", describe(k).c_str(), viaFile ? "to a file" : "to a stream", digits);
    uint64_t delivery;
    if (viaFile) {
        file = genPath(c, c.chance(1, 3, "dotted name") ? "m.1.fpma" : "m.fpma");
        sim::FilePlan p = benignPlan(c);
        drawLocale(c, p);
        sim::FileSim::arm(p);
        doWrite(mesh, file);
        sim::FileSim::disarm();
        sim::FileSim::report(c);
        c.step(sim::FileSim::writes);
        if (!sim::readFile(file.c_str(), text)) c.violate("no-file", "the file was not written");
        delivery = sim::mix64(p.shortWriteMax, p.eintrEvery);
    } else {
        sim::SimOut out;
        static const size_t b[] = {0, 1, 2, 3, 8, 64, 1024, 65536};
        out.setBuffer(b[c.pick(8, "put area")]);
        std::ostream os(&out);
        os.precision(digits);
        FPMAMeshWriter<3, IT, Real> w;
        w.writeToStream(os, mesh);
        os.flush();
        if (!os) c.violate("stream-failed", "writing to a good stream failed");
        text = out.got;
        delivery = out.buffer;
        c.step();
    }
    c.mix(text);
    if (dump(mesh) != before) c.violate("mesh-changed", "writing changed the mesh: %s", diffLine(before, dump(mesh)).c_str());
    PolyMesh w;
    std::string e = parseFpma(text, w);
    if (!e.empty()) c.violate("malformed-file", "the written file is not a valid FPMA file: %s", e.c_str());
    if (w.pts.size() != pts.size()) c.violate("lost-vertices", "the file has %zu vertices, the mesh %zu", w.pts.size(), pts.size());
    checkPoints(c, pts, w.pts, digits);
    // numbering of faces and cells is part of the format
    if (w.faces.size() != mesh.getFaces().size()) c.violate("lost-faces", "the file has %zu faces, the mesh %zu", w.faces.size(), (size_t)mesh.getFaces().size());
    for (size_t i = 0; i < w.faces.size(); i++)
        if (faceKey(w.faces[i]) != FaceEdges<3>::key(c, mesh, mesh.getFaces()[i])) c.violate("wrong-face", "face %zu was written as %s", i, str(faceKey(w.faces[i])).c_str());
    Topo expect = k.topo;
    for (size_t i = 0; i < pts.size(); i++) for (int j = 0; j < 3; j++) expect.pts[i][j] = printed(pts[i][j], digits);
    for (auto& t : expect.types) t = 0;
    std::string d = firstDifference(expect, topo(w));
    if (!d.empty()) c.violate("wrong-file", "the file describes another mesh (mesh vs file): %s", d.c_str());
    MT back;
    Types<3> bt;
    if (viaFile) { auto r = back.load(file); bt = r->getCellTypes(); }
    else { std::istringstream bi(text); Load<3>::stream(FPMA3, bi, back, bt); }
    for (auto& p : expect.pts) for (auto& x : p) x = static_cast<Real>(x);
    d = firstDifference(expect, extract(c, back, bt));
    if (!d.empty()) c.violate("round-trip", "the mesh read back differs from the written one (written vs read): %s", d.c_str());
    bool shared = false;
    for (auto& f : k.topo.faceCells) shared |= f.second.size() == 2;
    c.state(signature(k));
    if (shared) c.nontrivial(sim::mix64(signature(k), delivery));
}

void simRun(Ctx& c) {
    bool f = c.chance(1, 3, "through a file");
    if (f) switch (c.pick(2, "mesh kind")) {
    case 0: one<UnstructuredMesh<3, size_t, double>, size_t, double>(c, true); break;
    case 1: one<UnstructuredMesh<3, size_t, double, 6>, size_t, double>(c, true); break;
    } else switch (c.pick(4, "mesh kind")) {
    case 0: one<UnstructuredMesh<3, size_t, double>, size_t, double>(c, false); break;
    case 1: one<UnstructuredMesh<3, size_t, double, 6>, size_t, double>(c, false); break;
    case 2: one<UnstructuredMesh<3, unsigned int, double>, unsigned int, double>(c, false); break;
    case 3: one<UnstructuredMesh<3, unsigned int, float, 6>, unsigned int, float>(c, false); break;
    }
}
