// C11: saving a serializer stores it completely or throws; loading gives exactly the stored contents or throws and changes nothing.
#include "serial.h"
#include <unistd.h>
#include <sys/stat.h>
using namespace serial;

const sim::HarnessInfo simHarness = {
    "C11", "fault_enumeration",
    "a run saves a serializer (empty to some 100 kB, any types) to a new or existing file on a failing disk (full after n bytes with a torn write, write errors, failing open or close, file size limit of the kernel, full device) and loads it into a fresh or used serializer from a failing disk (missing file, failing open, read or seek; short reads, interrupted calls); non-trivial: a fault fired; distinct by size, fault, position and history",
    "BinarySerializer::saveToFile, BinarySerializer::loadFromFile, std::ofstream, std::ifstream, std::filebuf",
    "open/write/read/lseek/close system calls (simulated), size limit and /dev/full (kernel)",
    "one read or write call",
    "the file format has no checksum: a file cut by something else than the save is outside of the property",
    60000, 1500000};

static sim::FilePlan quiet(Ctx& c) {
    sim::FilePlan p;
    static const uint64_t sz[] = {0, 1, 3, 17, 100, 4096};
    p.shortReadMax = sz[c.pick(6, "short read size")];
    p.shortWriteMax = sz[c.pick(6, "short write size")];
    if (c.chance(1, 3, "interrupted calls")) p.eintrEvery = 1 + c.pick(5, "interrupt period");
    return p;
}
static void fill(Ctx& c, BinarySerializer& s, Model& m) {
    size_t n = c.pick(6, "values");
    for (size_t i = 0; i < n; i++) { P v = genValue(c); v->write(s, 0); m.v.push_back(v); }
    if (c.chance(1, 6, "big value")) {
        struct Big : Holder<std::string> { Big(Ctx& c) : Holder<std::string>(c, "big string") { v.assign(1 + c.skew(60000, "size"), 'q'); for (size_t i = 0; i < v.size(); i += 97) v[i] = (char)(i * 31); } };
        P v(new Big(c));
        v->write(s, 0);
        m.v.push_back(v);
    }
}
void simRun(Ctx& c) {
    sim::enterScratch(c);
    BinarySerializer s;
    Model m;
    fill(c, s, m);
    size_t reads = m.v.empty() ? 0 : c.pick(m.v.size(), "reads before");
    for (size_t i = 0; i < reads; i++) if (!m.v[i]->read(c, s, 0)) c.violate("wrong-value", "value %zu read wrongly before the save", i);
    std::vector<uint8_t> bytes = s.getData();
    size_t L = bytes.size();
    const char* file = "dump.bin";
    if (c.chance(1, 3, "file exists")) sim::writeFile(file, std::string(c.pick(2 * L + 3, "old size"), 'x'));
    // --- save
    static const char* kinds[] = {"no fault", "disk full", "write error", "one write error", "open fails", "close fails", "kernel file size limit", "full device", "no directory"};
    int kind = c.pick(9, "save fault");
    sim::FilePlan p = quiet(c);
    size_t at = c.chance(1, 3, "near the end") ? L - std::min(L, (size_t)c.skew(L + 1, "from the end")) : c.pick(L + 1, "position");
    static const int werr[] = {EIO, ENOSPC, EDQUOT, EFBIG};
    if (kind == 1) p.diskFullAfter = at;
    if (kind == 2 || kind == 3) { p.failWriteNth = 1 + (p.shortWriteMax ? at / p.shortWriteMax : c.pick(2, "write call")); p.writeErrno = werr[c.pick(4, "errno")]; p.writeTransient = kind == 3; }
    if (kind == 4) { p.failOpenNth = 1; p.openErrno = c.chance(1, 2, "errno") ? EACCES : ENOSPC; }
    if (kind == 5) p.closeFails = true;
    if (kind == 7) { ::unlink(file); if (symlink("/dev/full", file) != 0) c.discard(); p = sim::FilePlan(); }
    const char* target = kind == 8 ? "missing/dump.bin" : file;
    c.ev("%zu values, %zu bytes; save: %s at byte %zu, write call %llu, writes of at most %llu bytes", m.v.size(), L, kinds[kind], at, (unsigned long long)p.failWriteNth, (unsigned long long)p.shortWriteMax);
    bool threw = false, fired = false, any = false;
    std::string what;
    sim::FileSim::arm(p);
    if (kind == 6) sim::FileSim::kernelLimit(at);
    try { s.saveToFile(target); } catch (const std::exception& e) { threw = true; what = e.what(); }
    sim::FileSim::kernelUnlimit();
    sim::FileSim::disarm();
    sim::FileSim::report(c);
    c.step(sim::FileSim::writes);
    fired = sim::FileSim::firedWrite || sim::FileSim::firedFull || sim::FileSim::firedOpen || sim::FileSim::firedClose || (kind == 6 && at < L) || (kind == 7 && L) || kind == 8;
    if (kind >= 6 && fired) c.probe(kinds[kind]);
    any = fired;
    c.ev("%s", threw ? ("error: " + what).c_str() : "saved");
    if (sim::FileSim::openFds()) c.violate("open-file", "saving left a file open");
    std::string got;
    if (!threw) {
        if (fired && kind != 5 && kind != 1 && kind != 6 && (kind == 7 || kind == 8 || kind == 4)) c.violate("silent-loss", "%s: saving returned without an error", kinds[kind]);
        if (kind != 7) {
            if (!sim::readFile(file, got)) c.violate("silent-loss", "saving returned without an error but there is no file");
            if (got.size() != L || (L && memcmp(got.data(), bytes.data(), L) != 0)) c.violate("silent-loss", "%s at byte %zu: saving returned without an error but the file has %zu bytes instead of %zu or other ones", kinds[kind], at, got.size(), L);
        }
    } else {
        if (!fired) c.violate("spurious-error", "no fault happened but saving failed: %s", what.c_str());
        c.probe("save reported the error");
    }
    if (s.getData() != bytes) c.violate("changed-by-save", "saving changed the serializer");
    // reading goes on where it was
    if (reads < m.v.size() && reads && !m.v[reads]->read(c, s, 0)) c.violate("changed-by-save", "after the save the next value read is wrong");
    if (kind == 7 || threw) {
        ::unlink(file);
        try { s.saveToFile(file); } catch (const std::exception& e) { c.violate("no-recovery", "saving fails after the fault is gone: %s", e.what()); }
        c.probe("saved after the fault");
    }
    // --- load
    BinarySerializer t;
    Model old;
    bool used = c.chance(1, 2, "used target");
    if (used) { fill(c, t, old); size_t r = old.v.empty() ? 0 : c.pick(old.v.size() + 1, "reads before the load"); for (size_t i = 0; i < r; i++) old.v[i]->read(c, t, 0); }
    std::vector<uint8_t> oldBytes = t.getData();
    static const char* lk[] = {"no fault", "missing file", "open fails", "read fails", "seek fails", "directory"};
    int k2 = c.pick(6, "load fault");
    sim::FilePlan q = quiet(c);
    if (k2 == 1) ::unlink(file);
    if (k2 == 2) { q.failOpenNth = 1; q.openErrno = c.chance(1, 2, "errno") ? EACCES : EMFILE; }
    if (k2 == 3) { q.failReadNth = 1 + (q.shortReadMax ? c.pick(L / q.shortReadMax + 1, "read call") : c.pick(3, "read call")); q.readErrno = EIO; }
    if (k2 == 4) q.failSeekNth = 1 + c.pick(4, "seek");
    if (k2 == 5) { ::unlink(file); ::mkdir(file, 0700); }
    threw = false;
    sim::FileSim::arm(q);
    try { t.loadFromFile(file); } catch (const std::exception& e) { threw = true; what = e.what(); }
    sim::FileSim::disarm();
    sim::FileSim::report(c);
    c.step(sim::FileSim::reads);
    fired = sim::FileSim::firedRead || sim::FileSim::firedSeek || sim::FileSim::firedOpen || k2 == 1 || k2 == 5;
    any = any || fired;
    if (fired && (k2 == 1 || k2 == 5)) c.probe(lk[k2]);
    c.ev("load into a %s serializer: %s, read call %llu, seek %llu: %s", used ? "used" : "fresh", lk[k2], (unsigned long long)q.failReadNth, (unsigned long long)q.failSeekNth, threw ? what.c_str() : "loaded");
    if (sim::FileSim::openFds()) c.violate("open-file", "loading left a file open");
    if (!threw) {
        if (k2 == 1 || k2 == 2 || k2 == 5) c.violate("silent-load", "%s: loading returned without an error", lk[k2]);
        if (t.getData() != bytes) c.violate("silent-load", "%s: loading returned without an error but gave %zu bytes instead of %zu or other ones", lk[k2], t.getData().size(), L);
        // the first value comes first
        if (!m.v.empty() && !m.v[0]->read(c, t, 0)) c.violate("wrong-start", "after the load the first value read is not the first one");
        readAll(c, t, m, "after the load", "wrong-value");
    } else {
        if (!fired) c.violate("spurious-error", "no fault happened but loading failed: %s", what.c_str());
        c.probe("load reported the error");
        if (t.getData() != oldBytes) c.violate("changed-by-failed-load", "the failed load changed the contents (%zu bytes before, %zu after)", oldBytes.size(), t.getData().size());
        readAll(c, t, old, "after the failed load", "changed-by-failed-load");
        if (k2 == 5) ::rmdir(file);
        if (k2 == 1 || k2 == 5) s.saveToFile(file);
        try { t.loadFromFile(file); } catch (const std::exception& e) { c.violate("no-recovery", "loading fails after the fault is gone: %s", e.what()); }
        readAll(c, t, m, "loaded after the fault", "wrong-value");
    }
    uint64_t sig = sim::mix64(sim::mix64(L, kind * 100003 + at), k2 * 1000 + q.failReadNth);
    c.state(sim::mix64(kind * 16 + k2, threw * 2 + used));
    if (any) c.nontrivial(sim::mix64(sig, p.shortWriteMax * 10000 + q.shortReadMax));
}
