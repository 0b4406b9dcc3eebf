// C04: a mesh written to VTK is described completely and exactly by the file and is read back.
#include "vtkout.h"
#include "geo.h"
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C04", "exploration",
    "a run loads a generated mesh (2D polygons; 3D cells of all kinds from VTK or FPMA; polyhedra; some cells written as polyhedra), writes it through a simulated sink or simulated system calls (put areas of all sizes, short writes, interrupted calls, precision 6 to 17), checks the text by an independent parser against the model and reads it back; non-trivial: the mesh has a face shared by two cells; distinct by mesh, chosen cell types and delivery",
    "VTKMeshWriter<2>, VTKMeshWriter<3>, VTKMeshReader<2>, VTKMeshReader<3>, FPMAMeshReader<3>, UnstructuredMesh::write/load, edgesOrientation, MeshConnections, MeshApply, std::ostream, std::filebuf",
    "stream buffers and the open/write/read system calls (simulated)",
    "one delivery of bytes",
    "coordinates are written with the precision of the stream (6 digits by default)|the orientation of 3D cells is checked for cells that contain their centre, with initialised centres",
    25000, 700000};

struct Sink {
    Ctx& c;
    sim::SimOut out;
    int digits = 6;
    explicit Sink(Ctx& cc) : c(cc) {
        static const size_t b[] = {0, 1, 2, 3, 8, 64, 1024, 65536};
        out.setBuffer(b[c.pick(8, "put area")]);
    }
    void prepare(std::ostream& os) { os.precision(digits); }
};

template <typename Real> static void perturb(Ctx& c, std::vector<Pt>& pts, Real) {
    static const double unit[] = {1, 1e-3, 1e-5, 1e-7, 1e-9, 1e6};
    double u = unit[c.pick(6, "unit of length")];
    for (auto& p : pts) for (auto& x : p) x = static_cast<Real>((x + static_cast<double>(c.pick(1000003, "fraction")) / 1000003.0) * u);
}

template <typename MT, typename IT, typename Real> static void run3(Ctx& c, bool viaFile) {
    Source3 s = genSource3(c, 5, 40, !HasReserve<MT>::value);
    MT mesh;
    Types<3> dummy;
    std::istringstream is(s.k.text);
    Load<3>::stream(s.k.fmt, is, mesh, dummy);
    std::vector<Pt> pts = s.k.topo.pts;
    int digits = 6;
    if (!viaFile && c.chance(1, 3, "full precision")) {
        digits = sizeof(Real) == 4 ? 9 : 17;
        perturb(c, pts, Real());
        for (size_t i = 0; i < pts.size(); i++) for (int k = 0; k < 3; k++) mesh.getVertices()[i][k] = static_cast<Real>(pts[i][k]);
    }
    modify(c, mesh);
    mesh.initializeCenters();
    bool split = s.plan.none || std::find(s.plan.types.begin(), s.plan.types.end(), 0) != s.plan.types.end();
    if (!viaFile) needTypes(s);
    std::string title = genTitle(c);
    Types<3> types = makeTypes3(mesh, s.plan);
    std::string text, file;
    uint64_t delivery = 0;
    std::string before = dump(mesh);
    c.ev("%s, written %s, %d digits%s", describe(s.k).c_str(), viaFile ? "to a file" : "to a stream", digits, split ? ", with split cells" : "");
    if (viaFile) {
        file = genPath(c, c.chance(1, 3, "dotted name") ? "m.1.vtk" : "m.vtk");
        sim::FilePlan p = benignPlan(c);
        drawLocale(c, p);
        sim::FileSim::arm(p);
        doWrite(c, mesh, types, s.plan.none, title, file);
        sim::FileSim::disarm();
        sim::FileSim::report(c);
        c.step(sim::FileSim::writes);
        if (!sim::readFile(file.c_str(), text)) c.violate("no-file", "the file was not written");
        delivery = sim::mix64(p.shortWriteMax, p.eintrEvery);
    } else {
        Sink k(c);
        std::ostream os(&k.out);
        os.precision(digits);
        VTKMeshWriter<3, IT, Real> w;
        w.writeHeader(os, title);
        w.writeToStream(os, mesh, types);
        os.flush();
        if (!os) c.violate("stream-failed", "writing to a good stream failed");
        text = k.out.got;
        delivery = k.out.buffer;
        Mesh3 x;
        if (parseVtk(text, x).empty() && x.cells.size() != w.getNumberOfCells()) c.violate("wrong-count", "the writer reports %zu cells but wrote %zu", (size_t)w.getNumberOfCells(), x.cells.size());
        c.step();
    }
    c.mix(text);
    if (dump(mesh) != before) c.violate("mesh-changed", "writing changed the mesh: %s", diffLine(before, dump(mesh)).c_str());
    Mesh3 w;
    std::vector<size_t> cellOf;
    checkVtk3(c, text, title, s.k.topo, mesh, pts, s.plan, digits, w, cellOf);
    Topo expect = topo(w);
    if (!split) { expect = s.k.topo; expect.types = s.plan.types; for (size_t i = 0; i < pts.size(); i++) for (int k = 0; k < 3; k++) expect.pts[i][k] = printed(pts[i][k], digits); }
    if (manifold(expect)) {
        MT back;
        Types<3> bt;
        if (viaFile) { auto r = back.load(file); bt = r->getCellTypes(); }
        else { std::istringstream bi(text); Load<3>::stream(VTK3, bi, back, bt); }
        Topo t = extract(c, back, bt);
        for (auto& p : expect.pts) for (auto& x : p) x = static_cast<Real>(x);
        std::string d = firstDifference(expect, t);
        if (!d.empty()) c.violate("round-trip", "the mesh read back differs from the written one (written vs read): %s", d.c_str());
        c.probe("read back");
    }
    bool shared = false;
    for (auto& f : s.k.topo.faceCells) shared |= f.second.size() == 2;
    uint64_t sig = signature(s.k);
    for (int t : s.plan.types) sig = sim::mix64(sig, t);
    c.state(sig);
    if (shared) c.nontrivial(sim::mix64(sig, delivery));
    if (s.fromPoly && !split) c.probe("native cells with arbitrary order of faces and edges");
}
/// a reader which knows the cell types
template <unsigned D> struct TypesReader : MeshReader<D> {
    Types<D> t;
    Types<D> getCellTypes() const override { return t; }
};
/// every way the library offers to write a file
template <typename MT> static void doWriteT(Ctx& c, MT& mesh, const Types<MT::meshDimension()>& types, bool none, const std::string& title, const std::string& file) {
    constexpr unsigned D = MT::meshDimension();
    std::unique_ptr<MeshWriter<D>> w;
    if (none) switch (c.pick(2, "overload")) {
        case 0: w = mesh.write(file, title); break;
        case 1: mesh.write(file, w, Types<D>(), title); break;
    } else {
        TypesReader<D> r;
        r.t.template getDataByPos<0>() = types.template getDataByPos<0>();
        switch (c.pick(4, "overload")) {
        case 0: w = mesh.write(file, types, title); break;
        case 1: mesh.write(file, w, types, title); break;
        case 2: w = mesh.write(file, r, title); break;
        case 3: mesh.write(file, w, r, title); break;
        }
    }
    if (!w) c.violate("no-writer", "write gave no writer");
}
static void doWrite(Ctx& c, UnstructuredMesh<3, size_t, double>& m, const Types<3>& t, bool none, const std::string& title, const std::string& file) { doWriteT(c, m, t, none, title, file); }
static void doWrite(Ctx& c, UnstructuredMesh<3, size_t, double, 6>& m, const Types<3>& t, bool none, const std::string& title, const std::string& file) { doWriteT(c, m, t, none, title, file); }
template <typename MT> static void doWrite(Ctx&, MT&, const Types<3>&, bool, const std::string&, const std::string&) {}

template <typename MT, typename IT, typename Real> static void run2(Ctx& c, bool viaFile);
static void doWrite2(Ctx& c, UnstructuredMesh<2, size_t, double>& m, const Types<2>& t, bool none, const std::string& title, const std::string& file) { doWriteT(c, m, t, none, title, file); }
template <typename MT> static void doWrite2(Ctx&, MT&, const Types<2>&, bool, const std::string&, const std::string&) {}
template <typename MT, typename IT, typename Real> static void run2(Ctx& c, bool viaFile) {
    Case k = genCase(c, VTK2);
    MT mesh;
    Types<2> dummy;
    std::istringstream is(k.text);
    Load<2>::stream(VTK2, is, mesh, dummy);
    std::vector<Pt> pts = k.topo.pts;
    int digits = 6;
    if (!viaFile && c.chance(1, 3, "full precision")) {
        digits = sizeof(Real) == 4 ? 9 : 17;
        perturb(c, pts, Real());
        for (size_t i = 0; i < pts.size(); i++) { pts[i][2] = 0; for (int j = 0; j < 2; j++) mesh.getVertices()[i][j] = static_cast<Real>(pts[i][j]); }
    }
    modify(c, mesh);
    WritePlan plan;
    for (auto& x : k.m2.cells) plan.types.push_back(c.chance(1, 6, "write as polygon") ? VTK_POLY : x.type);
    if (viaFile && c.chance(1, 4, "no types")) plan.none = true;
    Types<2> types = makeTypes2(mesh, plan);
    std::string title = genTitle(c), text, file;
    c.ev("%s, written %s, %d digits", describe(k).c_str(), viaFile ? "to a file" : "to a stream", digits);
    uint64_t delivery;
    std::string before = dump(mesh);
    if (viaFile) {
        file = genPath(c, c.chance(1, 3, "dotted name") ? "m.1.vtk" : "m.vtk");
        sim::FilePlan p = benignPlan(c);
        drawLocale(c, p);
        sim::FileSim::arm(p);
        doWrite2(c, mesh, types, plan.none, title, file);
        sim::FileSim::disarm();
        sim::FileSim::report(c);
        c.step(sim::FileSim::writes);
        if (!sim::readFile(file.c_str(), text)) c.violate("no-file", "the file was not written");
        delivery = sim::mix64(p.shortWriteMax, p.eintrEvery);
    } else {
        Sink s(c);
        std::ostream os(&s.out);
        os.precision(digits);
        VTKMeshWriter<2, IT, Real> w;
        w.writeHeader(os, title);
        w.writeToStream(os, mesh, types);
        os.flush();
        if (!os) c.violate("stream-failed", "writing to a good stream failed");
        if ((size_t)w.getNumberOfCells() != k.m2.cells.size()) c.violate("wrong-count", "the writer reports %zu cells", (size_t)w.getNumberOfCells());
        text = s.out.got;
        delivery = s.out.buffer;
        c.step();
    }
    c.mix(text);
    if (dump(mesh) != before) c.violate("mesh-changed", "writing changed the mesh: %s", diffLine(before, dump(mesh)).c_str());
    checkVtk2(c, text, title, k.m2, pts, plan, digits);
    MT back;
    Types<2> bt;
    if (viaFile) { auto r = back.load(file); bt = r->getCellTypes(); }
    else { std::istringstream bi(text); Load<2>::stream(VTK2, bi, back, bt); }
    Topo e = k.topo;
    for (size_t i = 0; i < pts.size(); i++) for (int j = 0; j < 3; j++) e.pts[i][j] = static_cast<Real>(printed(pts[i][j], digits));
    e.types = plan.types;
    if (plan.none) for (auto& t : e.types) t = VTK_POLY;
    Topo t = extract(c, back, bt);
    std::string d = firstDifference(e, t);
    if (!d.empty()) c.violate("round-trip", "the mesh read back differs from the written one (written vs read): %s", d.c_str());
    bool shared = false;
    for (auto& f : k.topo.faceCells) shared |= f.second.size() == 2;
    c.state(signature(k));
    if (shared) c.nontrivial(sim::mix64(signature(k), delivery));
}

// ------------------------------------------------------------ geometry of the exported cells
/// Standard type of the cell, from its faces; 0 for other polyhedra
template <typename MT> static int standardType(const MT& m, size_t cell) {
    auto fs = geo::facesOfCell(m, cell);
    std::set<size_t> v;
    size_t quads = 0;
    for (size_t f : fs) {
        auto p = geo::polygon(m, f);
        v.insert(p.begin(), p.end());
        if (p.size() > 4) return 0;
        quads += p.size() == 4;
    }
    if (fs.size() == 4 && v.size() == 4) return VTK_TETRA;
    if (fs.size() == 5 && v.size() == 5) return VTK_PYRAMID;
    if (fs.size() == 5 && v.size() == 6) return VTK_WEDGE;
    if (fs.size() == 6 && v.size() == 8 && quads == 6) return VTK_HEXA;
    return 0;
}
template <typename MT, typename IT> static void runGeo(Ctx& c) {
    geo::GeoCase k = geo::genGeo3(c, 2);
    MT mesh;
    Types<3> dummy;
    std::istringstream is(k.text);
    Load<3>::stream(k.fmt, is, mesh, dummy);
    modify(c, mesh);
    bool tess = c.chance(1, 2, "tessellated centres");
    if (tess) mesh.template initializeCenters<METHOD_TESSELLATED>(); else mesh.initializeCenters();
    WritePlan plan;
    size_t kind = c.pick(3, "types");
    for (size_t i = 0; i < mesh.getCells().size(); i++) plan.types.push_back(kind == 0 || (kind == 1 && c.chance(1, 2, "write as polyhedron")) ? 0 : standardType(mesh, i));
    Types<3> types = makeTypes3(mesh, plan);
    c.ev("geometry: mesh of %zu cells, centres %s, types %zu", k.cells, tess ? "tessellated" : "default", kind);
    std::ostringstream os;
    os.precision(17);
    VTKMeshWriter<3, IT, double> w;
    w.writeHeader(os, "geometry");
    w.writeToStream(os, mesh, types);
    c.mix(os.str());
    c.step();
    Mesh3 x;
    std::string e = parseVtk(os.str(), x);
    if (!e.empty()) c.violate("malformed-file", "the written file is not a valid VTK file: %s", e.c_str());
    double scale = 0, volume = 0;
    for (auto& p : x.pts) for (double q : p) scale = std::max(scale, std::fabs(q));
    auto P = [&](size_t v) { return geo::V3(x.pts[v][0], x.pts[v][1], x.pts[v][2]); };
    int wedges = 0;
    for (size_t i = 0; i < x.cells.size(); i++) {
        const Cell& y = x.cells[i];
        geo::V3 mid, base;
        for (size_t v : y.v) mid = mid + P(v) * (1.0 / y.v.size());
        size_t n = y.type == VTK_TETRA || y.type == VTK_WEDGE ? 3 : 4;
        geo::V3 low;
        for (size_t j = 0; j < n; j++) low = low + P(y.v[j]) * (1.0 / n);
        for (size_t j = 0; j < n; j++) base = base + (P(y.v[j]) - low).cross(P(y.v[(j + 1) % n]) - low);
        double up = base.dot(mid - low);
        if (!(std::fabs(up) > 1e-9 * scale * scale * scale)) c.violate("flat-cell", "the written cell %zu has no volume", i);
        if (y.type == VTK_WEDGE) {
            if (wedges && (up > 0) != (wedges > 0)) c.violate("inside-out", "the written wedges are not oriented alike (cell %zu)", i);
            wedges = up > 0 ? 1 : -1;
        } else if (up < 0) c.violate("inside-out", "the written cell %zu of type %d is turned inside out", i, y.type);
        for (auto& f : facesOf(y)) {
            geo::V3 fm;
            for (size_t v : f) fm = fm + P(v) * (1.0 / f.size());
            for (size_t j = 0; j < f.size(); j++) volume += std::fabs((P(f[j]) - mid).cross(P(f[(j + 1) % f.size()]) - mid).dot(fm - mid)) / 6;
        }
    }
    if (!k.bumpy && !(std::fabs(volume - k.volume) <= 1e-9 * scale * scale * scale * (1 + x.cells.size()))) c.violate("wrong-volume", "the written cells have the volume %.12g, the mesh has %.12g", volume, k.volume);
    c.probe("geometry checked", x.cells.size());
    uint64_t sig = sim::hashStr(k.text);
    for (int t : plan.types) sig = sim::mix64(sig, t);
    c.state(sig);
    if (k.cells > 1) c.nontrivial(sig);
}

void simRun(Ctx& c) {
    if (c.chance(1, 5, "geometry")) {
        if (c.chance(1, 2, "mesh kind")) runGeo<UnstructuredMesh<3, size_t, double>, size_t>(c);
        else runGeo<UnstructuredMesh<3, unsigned int, double, 6>, unsigned int>(c);
        return;
    }
    bool f = c.chance(1, 3, "through a file");
    if (f) switch (c.pick(3, "mesh kind")) {
    case 0: run2<UnstructuredMesh<2, size_t, double>, size_t, double>(c, true); break;
    case 1: run3<UnstructuredMesh<3, size_t, double>, size_t, double>(c, true); break;
    case 2: run3<UnstructuredMesh<3, size_t, double, 6>, size_t, double>(c, true); break;
    } else switch (c.pick(5, "mesh kind")) {
    case 0: run2<UnstructuredMesh<2, size_t, double>, size_t, double>(c, false); break;
    case 1: run3<UnstructuredMesh<3, size_t, double>, size_t, double>(c, false); break;
    case 2: run3<UnstructuredMesh<3, size_t, double, 6>, size_t, double>(c, false); break;
    case 3: run2<UnstructuredMesh<2, unsigned int, float>, unsigned int, float>(c, false); break;
    case 4: run3<UnstructuredMesh<3, unsigned int, double>, unsigned int, double>(c, false); break;
    }
}
