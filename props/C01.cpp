// C01: a load whose input ends early or fails reports an error or yields the complete mesh.
#include "cases.h"
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C01", "fault_enumeration",
    "a run generates a mesh file, cuts it at a position or makes the device fail at a position (stream, read call, open) and loads it; the outcome must be an exception or exactly the mesh of the complete file; non-trivial: the fault really happened before the end of the needed data; distinct by mesh, fault kind, position and delivery",
    "VTKMeshReader<2>, VTKMeshReader<3>, FPMAMeshReader<3>, MeshElements, UnstructuredMesh::load, std::istream, std::filebuf",
    "stream buffers and the read/open/lseek system calls (simulated)",
    "one delivery of bytes",
    "a cut strictly inside the last number of an FPMA file leaves a well-formed complete file and is outside of the property|the reference model of element topology (sim/model.h) is right",
    60000, 1500000};

/// End of the last number that a reader needs.
static bool ambiguousCut(const Case& k, size_t cut) {
    if (k.fmt != FPMA3) return false;
    // the last number of the last cell: strictly inside, a shorter number is complete too
    size_t end = k.text.size();
    while (end > 0 && !isdigit((unsigned char)k.text[end - 1])) end--;
    // skip the trailer "0"
    size_t b = end - 1;
    while (b > 0 && isspace((unsigned char)k.text[b - 1])) b--;
    size_t e = b;
    while (b > 0 && isdigit((unsigned char)k.text[b - 1])) b--;
    return cut > b && cut < e;
}
template <typename MT> static void one(Ctx& c, int fmt) {
    constexpr unsigned D = MT::meshDimension();
    GenOpt o;
    o.small3 = 4; o.big3 = 20; o.small2 = 6; o.big2 = 40;
    o.forMesh<MT>();
    Case k = genCase(c, fmt, o);
    c.ev("%s", describe(k).c_str());
    // where: positions near the end and anywhere
    size_t L = k.text.size();
    size_t at = 0;
    switch (c.pick(4, "where")) {
    case 0: at = c.pick(L, "position"); break;
    case 1: at = L - 1 - c.skew(L, "position from the end"); break;
    case 2: { // at a line boundary
        std::vector<size_t> nl;
        for (size_t i = 0; i < L; i++) if (k.text[i] == '\n') { nl.push_back(i); if (i + 1 < L) nl.push_back(i + 1); }
        at = nl.empty() ? 0 : c.of(nl, "line boundary");
        break;
    }
    case 3: { // at a token boundary or inside a token
        std::vector<size_t> tk;
        for (size_t i = 1; i < L; i++) if (isspace((unsigned char)k.text[i]) != isspace((unsigned char)k.text[i - 1])) tk.push_back(i);
        at = tk.empty() ? 0 : c.of(tk, "token boundary");
        break;
    }
    }
    MT mesh;
    Types<D> types;
    if (c.chance(1, 3, "mesh used before")) {
        Case old = genCase(c, fmt, o);
        sim::SimIn in(old.text);
        std::istream is(&in);
        Load<D>::stream(fmt, is, mesh, types);
        types = Types<D>();
        c.ev("the mesh object held another mesh before (%s)", describe(old).c_str());
    }
    int kind = c.pick(6, "fault");
    static const char* kinds[] = {"truncated stream", "failing stream", "truncated file", "failing read call", "failing open", "failing seek"};
    if (kind <= 2 && kind != 1 && ambiguousCut(k, at)) c.discard();
    bool threw = false, fired = false;
    std::string what;
    uint64_t delivery = 0;
    std::unique_ptr<MeshReader<D>> reader;
    try {
        if (kind < 2) {
            sim::SimIn in(k.text);
            if (kind == 0) in.eofAt = at; else in.errAt = at;
            drawChunks(c, in);
            delivery = in.chunk;
            c.ev("%s at byte %zu of %zu, chunks of at most %zu", kinds[kind], at, L, in.chunk);
            std::istream is(&in);
            try {
                Load<D>::stream(fmt, is, mesh, types);
            } catch (const std::exception& e) { threw = true; what = e.what(); }
            fired = in.eofSeen || in.errSeen;
            c.step(in.refills);
            if (in.errSeen) c.probe("stream read error (EIO)");
            if (in.eofSeen && kind == 0) c.probe("stream ended early");
        } else {
            sim::enterScratch(c);
            sim::writeFile(fileName(fmt), kind == 2 ? k.text.substr(0, at) : k.text);
            sim::FilePlan p = benignPlan(c);
        drawLocale(c, p);
            if (kind == 3) { p.failReadNth = 1 + (p.shortReadMax ? at / p.shortReadMax : c.pick(3, "read call")); static const int errs[] = {EIO, EISDIR, ESTALE}; p.readErrno = errs[c.pick(3, "errno")]; }
            if (kind == 4) { p.failOpenNth = 1; static const int errs[] = {ENOENT, EACCES, EMFILE, ENFILE}; p.openErrno = errs[c.pick(4, "errno")]; }
            if (kind == 5) p.failSeekNth = 1 + c.pick(2, "seek");
            c.ev("%s (byte %zu of %zu, read call %llu), reads of at most %llu bytes", kinds[kind], at, L, (unsigned long long)p.failReadNth, (unsigned long long)p.shortReadMax);
            delivery = p.shortReadMax;
            sim::FileSim::arm(p);
            try {
                reader = mesh.load(fileName(fmt));
                if (!reader) c.violate("no-reader", "load returned no reader and no error");
                types = reader->getCellTypes();
            } catch (const std::exception& e) { threw = true; what = e.what(); }
            sim::FileSim::disarm();
            sim::FileSim::report(c);
            fired = kind == 2 || sim::FileSim::firedRead || sim::FileSim::firedOpen || sim::FileSim::firedSeek;
            if (kind == 2) c.probe("file ends early");
            if (kind == 4 && !threw) c.violate("open-ignored", "the file could not be opened and no error was raised");
            c.step(sim::FileSim::reads);
            if (sim::FileSim::openFds()) c.violate("open-file", "load left a file open");
        }
    } catch (const std::exception& e) { throw; }
    c.ev("%s", threw ? ("error: " + what).c_str() : "loaded");
    if (!threw) {
        Topo t = extract(c, mesh, types);
        std::string d = firstDifference(k.topo, t);
        if (!d.empty()) c.violate("silent-partial-mesh", "%s at byte %zu of %zu: no error, but the mesh differs from the complete one (file vs loaded): %s", kinds[kind], at, L, d.c_str());
        c.probe("loaded although the fault fired", fired);
    } else {
        c.probe("error raised");
        if (!fired) c.violate("spurious-error", "no fault happened but the load failed: %s", what.c_str());
    }
    c.state(sim::mix64(sim::mix64(kind, at), threw));
    if (fired) c.nontrivial(sim::mix64(sim::mix64(signature(k), kind * 1000003 + at), delivery));
}

void simRun(Ctx& c) {
    switch (c.pick(6, "mesh kind")) {
    case 0: one<UnstructuredMesh<2, size_t, double>>(c, VTK2); break;
    case 1: one<UnstructuredMesh<3, size_t, double>>(c, VTK3); break;
    case 2: one<UnstructuredMesh<3, size_t, double, 6>>(c, FPMA3); break;
    case 3: one<UnstructuredMesh<2, unsigned int, float>>(c, VTK2); break;
    case 4: one<UnstructuredMesh<3, unsigned int, double, 4>>(c, VTK3); break;
    case 5: one<UnstructuredMesh<3, unsigned int, double>>(c, FPMA3); break;
    }
}
