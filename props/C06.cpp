// C06: a file write that returns normally has stored the complete file; otherwise it reports an error.
#include "vtkout.h"
#include <unistd.h>
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C06", "fault_enumeration",
    "a run writes a generated mesh to a file (fresh writer, given writer, writer of the other format; VTK and FPMA) while the disk fails as the seed says: full after n bytes with a torn write, write errors (persistent or once), failing open, failing close, a file size limit set in the kernel, a full device, combined with short writes and interrupted calls, or to a stream whose buffer rejects a byte for ever or once, by state or by exception; if write returns normally the file must have exactly the bytes a faultless write gives; non-trivial: a fault fired; distinct by mesh, fault and position",
    "UnstructuredMesh::write (all overloads), VTKMeshWriter<2>, VTKMeshWriter<3>, FPMAMeshWriter<3>, std::ofstream, std::filebuf",
    "open/write/writev/close system calls (simulated), size limit and /dev/full (kernel)",
    "one write call",
    "a failing close without failing write is reported by the library only if the C++ library reports it",
    40000, 1000000};

template <typename MT> static void setTypes(MT& m, Types<3>& t, const WritePlan& p);
template <typename MT> static void setTypes(MT& m, Types<2>& t, const WritePlan& p);
template <typename MT> void writeFpma(std::ostream& o, MT& m, std::true_type) { FPMAMeshWriter<3, size_t, double> w; w.writeToStream(o, m); }
template <typename MT> void writeFpma(std::ostream&, MT&, std::false_type) {}
template <typename MT, typename W> void writeAll(std::ostream& o, MT& m, const Types<MT::meshDimension()>& t, W& w, bool fpma) {
    if (fpma) return writeFpma(o, m, std::integral_constant<bool, MT::meshDimension() == 3>());
    w.writeHeader(o, "title");
    w.writeToStream(o, m, t);
}
template <typename MT> static bool streamWrite(Ctx& c, MT& mesh, const Types<MT::meshDimension()>& types, bool fpma, size_t& at, int& kind) {
    constexpr unsigned D = MT::meshDimension();
    VTKMeshWriter<D, size_t, double> vtk;
    std::string ref;
    { std::ostringstream o; writeAll(o, mesh, types, vtk, fpma); ref = o.str(); }
    sim::SimOut sb;
    at = c.pick(ref.size() + 1, "failing byte");
    kind = 100 + c.pick(2, "failure goes away") + 2 * c.pick(2, "by exception of the buffer");
    sb.failAt = at;
    sb.once = kind & 1;
    sb.throwing = (kind - 100) & 2;
    if (c.chance(1, 2, "buffered")) sb.setBuffer(1 + c.pick(200, "buffer"));
    std::ostream o(&sb);
    bool mask = c.chance(1, 3, "exceptions of the stream on"), threw = false;
    if (mask) o.exceptions(std::ios::badbit | std::ios::failbit);
    try { writeAll(o, mesh, types, vtk, fpma); o.flush(); } catch (const std::exception&) { threw = true; }
    bool fired = sb.down;
    c.ev("%s export to a stream failing at byte %zu of %zu%s%s: %s", fpma ? "FPMA" : "VTK", at, ref.size(), sb.once ? " once" : "", sb.throwing ? ", by exception" : "", threw ? "exception" : o.good() ? "good" : "failed");
    c.probe(sb.once ? "stream fails once" : "stream fails");
    if (!threw && o.good() && sb.got != ref) c.violate("silent-loss", "the stream failed at byte %zu of %zu, the export ended with a good stream, but the output is not complete: %s", at, ref.size(), diffLine(sb.got, ref).c_str());
    if (!fired && (threw || !o.good())) c.violate("spurious-error", "no fault happened but the export failed");
    if (fired && mask && !threw) c.violate("lost-error", "the exception of the stream did not arrive");
    std::ostringstream again; // the writer is still usable
    writeAll(again, mesh, types, vtk, fpma);
    if (again.str() != ref) c.violate("no-recovery", "after the failed export the writer writes something else: %s", diffLine(again.str(), ref).c_str());
    return fired;
}
template <typename MT> static void one(Ctx& c, bool fpmaTarget) {
    constexpr unsigned D = MT::meshDimension();
    Case k;
    WritePlan plan;
    GenOpt o;
    o.small3 = 5; o.big3 = 60; o.small2 = 8; o.big2 = 200;
    if (D == 2) {
        k = genCase(c, VTK2, o);
        for (auto& x : k.m2.cells) plan.types.push_back(x.type);
    } else {
        Source3 s = genSource3(c, 5, 60, !HasReserve<MT>::value);
        needTypes(s);
        k = s.k;
        plan = s.plan;
    }
    MT mesh;
    Types<D> types;
    std::istringstream is(k.text);
    Load<D>::stream(k.fmt, is, mesh, types);
    mesh.initializeCenters();
    setTypes(mesh, types, plan);
    if (c.chance(1, 3, "to a stream")) {
        size_t at; int kind;
        if (streamWrite(c, mesh, types, fpmaTarget, at, kind)) c.nontrivial(sim::mix64(sim::mix64(signature(k), kind * 1000003 + at), fpmaTarget));
        return;
    }
    const char* file = fpmaTarget ? "out.fpma" : "out.vtk";
    sim::enterScratch(c);
    // faultless reference
    std::string ref;
    mesh.write(file, types, "title");
    if (!sim::readFile(file, ref)) c.violate("no-file", "the file was not written");
    size_t L = ref.size();
    ::unlink(file);
    if (c.chance(1, 3, "file exists")) { sim::writeFile(file, std::string(c.pick(2 * L + 2, "old size"), 'x')); c.ev("an older file exists"); }
    // how the library is asked to write
    int how = c.pick(3, "overload");
    std::unique_ptr<MeshWriter<D>> writer;
    if (how == 1) { // a writer which has indexed this mesh
        if (fpmaTarget) writer = mesh.write("other.fpma", types, "t"); else writer = mesh.write("other.vtk", types, "t");
    }
    if (how == 2 && D == 3) { // a writer of the other format: replaced by the library
        if (fpmaTarget) writer = mesh.write("other.vtk", types, "t"); else writer = mesh.write("other.fpma", types, "t");
    }
    if (c.chance(1, 12, "unsupported format")) {
        static const char* names[] = {"out.txt", "out.VTK", "out", "out.vtk.bak", "out.vtkx", "out.msh"};
        std::string bad = D == 2 && c.chance(1, 3, "FPMA in 2D") ? "out.fpma" : names[c.pick(6, "name")];
        bool threw = false;
        try { if (how == 0) mesh.write(bad, types, "title"); else mesh.write(bad, writer, types, "title"); } catch (const std::exception&) { threw = true; }
        c.ev("write to %s, overload %d: %s", bad.c_str(), how, threw ? "exception" : "returned");
        if (!threw) c.violate("silent-loss", "the mesh cannot be written into %s but the write returned without an error", bad.c_str());
        c.probe("unsupported format");
        mesh.write(file, writer, types, "title");
        std::string got;
        sim::readFile(file, got);
        if (got != ref) c.violate("no-recovery", "after the failed write the writer writes something else: %s", diffLine(got, ref).c_str());
        return;
    }
    int kind = c.pick(8, "fault");
    static const char* kinds[] = {"disk full", "write error", "one write error", "open fails", "close fails", "kernel file size limit", "full device", "no fault"};
    sim::FilePlan p = benignPlan(c);
        drawLocale(c, p);
    size_t at = c.chance(1, 3, "near the end") ? (L - std::min<size_t>(L, c.skew(L + 1, "from the end"))) : c.pick(L + 1, "position");
    static const int werr[] = {EIO, ENOSPC, EDQUOT, EFBIG, EPIPE};
    static const int oerr[] = {EACCES, ENOSPC, EMFILE, EROFS, EISDIR};
    if (kind == 0) p.diskFullAfter = at;
    if (kind == 1 || kind == 2) {
        p.failWriteNth = 1 + (p.shortWriteMax ? at / p.shortWriteMax : c.pick(1 + L / 8191, "write call"));
        p.writeErrno = werr[c.pick(5, "errno")];
        p.writeTransient = kind == 2;
    }
    if (kind == 3) { p.failOpenNth = 1 + c.pick(2, "open call"); p.openErrno = oerr[c.pick(5, "errno")]; }
    if (kind == 4) p.closeFails = true;
    if (kind == 6) { ::unlink(file); if (symlink("/dev/full", file) != 0) c.discard(); p = sim::FilePlan(); }
    c.ev("%s to %s (%zu bytes), overload %d, %s at byte %zu, write call %llu, writes of at most %llu bytes", describe(k).c_str(), file, L, how, kinds[kind], at, (unsigned long long)p.failWriteNth, (unsigned long long)p.shortWriteMax);
    bool threw = false;
    std::string what;
    sim::FileSim::arm(p);
    if (kind == 5) sim::FileSim::kernelLimit(at);
    try {
        if (how == 0) { auto w = mesh.write(file, types, "title"); if (!w) c.violate("no-writer", "write returned no writer and no error"); }
        else mesh.write(file, writer, types, "title");
    } catch (const std::exception& e) { threw = true; what = e.what(); }
    sim::FileSim::kernelUnlimit();
    sim::FileSim::disarm();
    sim::FileSim::report(c);
    c.step(sim::FileSim::writes);
    bool fired = sim::FileSim::firedWrite || sim::FileSim::firedFull || sim::FileSim::firedOpen || sim::FileSim::firedClose;
    if (kind == 5 && at < L) { fired = true; c.probe("kernel file size limit"); }
    if (kind == 6) { fired = true; c.probe("full device"); }
    c.ev("%s", threw ? ("error: " + what).c_str() : "returned");
    if (sim::FileSim::openFds()) c.violate("open-file", "write left a file open");
    if (!threw) {
        std::string got;
        if (kind == 6) c.violate("silent-loss", "writing to a full device returned without an error");
        if (!sim::readFile(file, got)) c.violate("silent-loss", "write returned without an error but there is no file");
        if (got != ref) c.violate("silent-loss", "%s at byte %zu: write returned without an error but the file has %zu of %zu bytes right: %s", kinds[kind], at, (size_t)(std::mismatch(got.begin(), got.begin() + std::min(got.size(), ref.size()), ref.begin()).first - got.begin()), L, diffLine(got, ref).c_str());
    } else {
        c.probe("error raised");
        if (!fired) c.violate("spurious-error", "no fault happened but the write failed: %s", what.c_str());
        // once the faults stop the same objects write the complete file
        if (kind == 6) ::unlink(file);
        std::string got;
        mesh.write(file, writer, types, "title");
        if (!sim::readFile(file, got) || got != ref) c.violate("no-recovery", "after the failed write the file cannot be written completely: %s", diffLine(got, ref).c_str());
        c.probe("written again after the failure");
    }
    c.state(sim::mix64(sim::mix64(kind, how), threw));
    if (fired) c.nontrivial(sim::mix64(sim::mix64(signature(k), kind * 1000003 + at), sim::mix64(how, p.shortWriteMax)));
}
template <typename MT> static void setTypes(MT& m, Types<3>& t, const WritePlan& p) { t = makeTypes3(m, p); }
template <typename MT> static void setTypes(MT& m, Types<2>& t, const WritePlan& p) { t = makeTypes2(m, p); }

void simRun(Ctx& c) {
    switch (c.pick(4, "mesh kind")) {
    case 0: one<UnstructuredMesh<2, size_t, double>>(c, false); break;
    case 1: one<UnstructuredMesh<3, size_t, double>>(c, false); break;
    case 2: one<UnstructuredMesh<3, size_t, double, 6>>(c, true); break;
    case 3: one<UnstructuredMesh<3, size_t, double>>(c, true); break;
    }
}
