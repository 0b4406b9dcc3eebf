// C08: cell data exported with a mesh belong to the right cells and are read back.
#include "celldata.h"
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C08", "exploration",
    "a run exports a mesh (2D, 3D native cells, polyhedra split on export, mixtures) with scalar, integer, vector and tensor data by default or bound traits through a simulated sink or files, checks every written value by an independent parser (data of split cells belong to each of their parts) and reads mesh and data back through a stream delivered in chunks; non-trivial: at least 2 cells; distinct by mesh, split pattern and delivery",
    "VTKMeshDataWriter<2>, VTKMeshDataWriter<3>, VTKMeshDataReader<2>, VTKMeshDataReader<3>, VTKMeshWriter, VTKMeshReader, MeshDataContainer, Traits, std::ostream, std::istream, std::filebuf",
    "stream buffers and the open/write/read/lseek system calls (simulated)",
    "one delivery of bytes",
    "values are written with the precision of the stream (6 digits by default)",
    20000, 500000};

template <typename MT> static void setTypes(MT& m, Types<3>& t, const WritePlan& p) { t = makeTypes3(m, p); }
template <typename MT> static void setTypes(MT& m, Types<2>& t, const WritePlan& p) { t = makeTypes2(m, p); }
static bool equal(const Vector<3, double>& a, const std::vector<double>& b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }

template <typename MT, typename T> static void one(Ctx& c) {
    constexpr unsigned D = MT::meshDimension();
    Case k;
    WritePlan plan;
    if (D == 2) { GenOpt o; k = genCase(c, VTK2, o); for (auto& x : k.m2.cells) plan.types.push_back(x.type); }
    else { Source3 s = genSource3(c, 6, 40, !HasReserve<MT>::value); needTypes(s); k = s.k; plan = s.plan; }
    MT mesh;
    Types<D> types;
    std::istringstream is(k.text);
    Load<D>::stream(k.fmt, is, mesh, types);
    modify(c, mesh);
    mesh.initializeCenters();
    setTypes(mesh, types, plan);
    int digits = c.chance(1, 3, "full precision") ? 17 : 6;
    int which = wayOfData(c);
    MeshDataContainer<T, D> data(mesh);
    size_t n = mesh.getCells().size();
    for (size_t i = 0; i < n; i++) fillData(c, data.template getDataByPos<0>().at(i), digits);
    bool viaFile = c.chance(1, 3, "through a file");
    std::string text, title = genTitle(c);
    bool split = std::find(plan.types.begin(), plan.types.end(), 0) != plan.types.end();
    c.ev("%s with data, %d digits, %s%s%s", describe(k).c_str(), digits, viaFile ? "file" : "stream", which == 1 || which == 3 ? ", bound traits" : which ? ", other arrays" : "", D == 3 && split ? ", with split cells" : "");
    uint64_t delivery = 0;
    if (viaFile) {
        sim::enterScratch(c);
        sim::FilePlan p = benignPlan(c);
        sim::FileSim::arm(p);
        {
            std::ofstream f("d.vtk", std::ios::binary);
            f.precision(digits);
            writeAll<D>(f, mesh, types, data, which, title);
        }
        sim::FileSim::disarm();
        sim::FileSim::report(c);
        sim::readFile("d.vtk", text);
        delivery = sim::mix64(p.shortWriteMax, p.eintrEvery);
    } else {
        sim::SimOut out;
        static const size_t b[] = {0, 1, 2, 3, 8, 64, 1024, 65536};
        out.setBuffer(b[c.pick(8, "put area")]);
        std::ostream os(&out);
        os.precision(digits);
        writeAll<D>(os, mesh, types, data, which, title);
        os.flush();
        text = out.got;
        delivery = out.buffer;
    }
    c.step();
    c.mix(text);
    size_t cd = text.find("CELL_DATA");
    if (cd == text.npos) c.violate("no-data", "the file has no CELL_DATA");
    if (title.find("CELL_DATA") != title.npos) c.discard();
    Mesh3 w;
    std::vector<size_t> cellOf;
    std::string rest;
    if (D == 3) checkVtk3(c, text, title, k.topo, mesh3(mesh), k.topo.pts, plan, digits, w, cellOf, &rest);
    else {
        std::string e = parseVtk(text, w, nullptr, &rest);
        if (!e.empty()) c.violate("malformed-file", "%s", e.c_str());
        for (size_t i = 0; i < n; i++) cellOf.push_back(i);
    }
    std::vector<Column> cols;
    size_t written = 0;
    std::string e = parseCellData(text.substr(cd), cols, written);
    if (!e.empty()) c.violate("malformed-data", "the written data are malformed: %s", e.c_str());
    if (written != w.cells.size()) c.violate("wrong-count", "CELL_DATA says %zu but the file has %zu cells", written, w.cells.size());
    size_t ncols = expectOf(data.template getDataByPos<0>().at(0), which).size();
    if (cols.size() != ncols) c.violate("wrong-columns", "%zu columns instead of %zu", cols.size(), ncols);
    for (size_t q = 0; q < ncols; q++) for (size_t j = 0; j < w.cells.size(); j++) {
        auto ex = expectOf(data.template getDataByPos<0>().at(cellOf[j]), which)[q];
        const Column* col = nullptr;
        for (auto& x : cols) if (x.name == ex.first) col = &x;
        if (!col) c.violate("missing-column", "the data %s were not written", ex.first.c_str());
        if (col->kind != kindOf(ex.second.size())) c.violate("wrong-kind", "the data %s were written as %s", ex.first.c_str(), col->kind.c_str());
        for (size_t m = 0; m < ex.second.size(); m++)
            if (col->v[j][m] != printed(ex.second[m], digits)) c.violate("wrong-value", "component %zu of %s at cell %zu of the file (cell %zu of the mesh) is %.17g instead of %.17g", m, ex.first.c_str(), j, cellOf[j], col->v[j][m], ex.second[m]);
    }
    // read back
    bool ok = D == 2 || manifold(topo(w));
    if (ok) {
        MT back;
        Types<D> bt;
        sim::SimIn in(text);
        drawChunks(c, in);
        std::istream bi(&in);
        Load<D>::stream(D == 2 ? VTK2 : VTK3, bi, back, bt);
        MeshDataContainer<T, D> rd(back);
        if (rd.template getDataByPos<0>().size() != w.cells.size()) c.violate("wrong-count", "read back %zu cells of %zu", rd.template getDataByPos<0>().size(), w.cells.size());
        if (viaFile && c.chance(1, 2, "read the file")) {
            sim::FilePlan p = benignPlan(c);
            sim::FileSim::arm(p);
            std::ifstream f("d.vtk", std::ios::binary);
            readAll<D>(f, rd, which);
            f.close();
            sim::FileSim::disarm();
        } else readAll<D>(bi, rd, which);
        for (size_t j = 0; j < w.cells.size(); j++) {
            auto a = expectOf(rd.template getDataByPos<0>().at(j), which), b = expectOf(data.template getDataByPos<0>().at(cellOf[j]), which);
            for (size_t q = 0; q < a.size(); q++) for (size_t m = 0; m < a[q].second.size(); m++)
                if (a[q].second[m] != printed(b[q].second[m], digits)) c.violate("round-trip", "component %zu of %s of cell %zu was read as %.17g but was %.17g", m, a[q].first.c_str(), j, a[q].second[m], b[q].second[m]);
        }
        c.probe("data read back");
    }
    uint64_t sig = signature(k);
    for (int t : plan.types) sig = sim::mix64(sig, t);
    c.state(sig);
    if (n > 1) c.nontrivial(sim::mix64(sig, delivery));
}
template <typename MT> static auto mesh3i(const MT& m, std::integral_constant<unsigned, 3>) -> const MT& { return m; }
static UnstructuredMesh<3, size_t, double> none;
template <typename MT> static const UnstructuredMesh<3, size_t, double>& mesh3i(const MT&, std::integral_constant<unsigned, 2>) { return none; }
template <typename MT> static auto mesh3(const MT& m) -> decltype(mesh3i(m, std::integral_constant<unsigned, MT::meshDimension()>())) { return mesh3i(m, std::integral_constant<unsigned, MT::meshDimension()>()); }

void simRun(Ctx& c) {
    switch (c.pick(3, "mesh kind")) {
    case 0: one<UnstructuredMesh<2, size_t, double>, Data2>(c); break;
    case 1: one<UnstructuredMesh<3, size_t, double>, Data3>(c); break;
    case 2: one<UnstructuredMesh<3, size_t, double, 6>, Data3>(c); break;
    }
}
