// C13: a finished JSON log is a valid JSON document with one entry per logged expression.
#include "logs.h"
#include <GTMesh/Debug/JSONLogger.h>
using namespace logs;

const sim::HarnessInfo simHarness = {
    "C13", "exploration",
    "a run performs a history of create, log (1 to 3 expressions per call, with and without source position, all kinds of values) and destroy calls of up to 2 loggers and reads each finished log by a strict JSON parser: one entry per expression, in order, with line, file, expression, value, and equal group numbers exactly within one call; the disk makes short writes and interrupts calls, or fails (then logging goes on without an error); non-trivial: a log was reopened or has at least 3 entries; distinct by history",
    "JSONLogger, VariableExport, Printers, std::ofstream, std::filebuf",
    "open/write/close system calls (simulated)",
    "one logger call",
    "data text without quotes, backslashes and control characters; no NaN or infinity (JSON has none)",
    40000, 1000000};

struct Log {
    std::unique_ptr<JSONLogger> l;
    std::string own, openFile;            // file of the constructor ("" none), file open now ("" none)
    std::vector<Entry> entries;
};
void simRun(Ctx& c) {
    sim::enterScratch(c);
    sim::FilePlan p = quiet(c);
    bool failing = c.chance(1, 10, "failing disk");
    if (failing) {
        switch (c.pick(3, "fault")) {
        case 0: p.failOpenNth = 1; p.openErrno = EACCES; break;
        case 1: p.diskFullAfter = c.pick(400, "bytes"); break;
        case 2: p.failWriteNth = 1 + c.pick(3, "write"); p.writeErrno = EIO; break;
        }
    }
    std::vector<Log> logs(1 + c.pick(2, "loggers"));
    size_t call = 0, reopened = 0, most = 0;
    uint64_t hist = 0;
    static const char* files[] = {"a.json", "b.json", "c.json", "d.json", "e.json", "f.json"};
    sim::FileSim::arm(p);
    for (size_t i = 0; i < logs.size(); i++) {
        if (c.chance(1, 2, "file name given")) { logs[i].own = files[i]; logs[i].l.reset(new JSONLogger(files[i])); }
        else logs[i].l.reset(new JSONLogger());
    }
    auto finish = [&](Log& g) { // the file of this opening is complete
        if (g.openFile.empty()) return;
        if (!failing) checkJson(c, g.openFile, g.entries);
        most = std::max(most, g.entries.size());
        g.openFile.clear();
        g.entries.clear();
    };
    size_t ops = 1 + c.pick(12, "operations");
    bool lng = c.chance(1, 40, "long history");
    if (lng) { ops = 40 + c.pick(260, "operations"); c.probe("long history"); }
    for (size_t k = 0; k < ops; k++) {
        size_t w = c.pick(logs.size(), "logger");
        Log& g = logs[w];
        int op = lng && !c.chance(1, 60, "reopen") ? 7 : (int)c.pick(8, "operation");
        if (op >= 2 && g.openFile.empty() && g.own.empty()) op = 0;
        c.step();
        hist = sim::mix64(hist, op * 4 + w);
        if (op == 0) { // create, also while open
            std::string f = files[2 + w * 2 + c.pick(2, "file")];
            bool was = !g.openFile.empty();
            std::string old = g.openFile;
            std::vector<Entry> oldE = g.entries;
            g.l->create(f.c_str());
            c.ev("%zu: create %s%s", w, f.c_str(), was ? " while open" : "");
            if (was) { reopened++; if (old != f && !failing) checkJson(c, old, oldE); }
            g.openFile = f;
            g.entries.clear();
        } else if (op == 1) {
            g.l->destroy();
            c.ev("%zu: destroy", w);
            if (!g.openFile.empty()) reopened++;
            finish(g);
        } else {
            if (g.openFile.empty()) { g.openFile = g.own; g.entries.clear(); }
            call++;
            size_t nexp = 1 + c.pick(3, "expressions");
            bool withLine = c.chance(3, 4, "source position");
            int line = (int)c.pick(100000, "line");
            std::string file = fileText(c);
            auto add = [&](const std::string& ex, const json::Node& n) { Entry e; e.hasLine = withLine; e.line = line; e.file = file; e.expr = ex; e.data = n; e.call = call; g.entries.push_back(e); };
            std::string e1 = exprText(c, true), e2 = exprText(c, true), e3 = exprText(c, true);
            withValue(c, [&](auto& v, const json::Node& n) {
                add(e1, n);
                if (nexp == 1) { if (withLine) g.l->writeVar(line, file.c_str(), e1.c_str(), v); else g.l->writeVar(e1.c_str(), v); return; }
                int i2; json::Node n2; std::vector<int> v3; json::Node n3;
                drawV(c, i2, n2); drawV(c, v3, n3);
                add(e2, n2);
                if (nexp == 2) { if (withLine) g.l->writeVar(line, file.c_str(), e1.c_str(), v, e2.c_str(), i2); else g.l->writeVar(e1.c_str(), v, e2.c_str(), i2); return; }
                add(e3, n3);
                if (withLine) g.l->writeVar(line, file.c_str(), e1.c_str(), v, e2.c_str(), i2, e3.c_str(), v3); else g.l->writeVar(e1.c_str(), v, e2.c_str(), i2, e3.c_str(), v3);
            });
            hist = sim::mix64(hist, nexp * 2 + withLine);
            c.ev("%zu: log %zu expressions%s to %s", w, nexp, withLine ? " with source position" : "", g.openFile.c_str());
        }
    }
    for (Log& g : logs) {
        g.l.reset();   // closes the log
        finish(g);
    }
    sim::FileSim::disarm();
    sim::FileSim::report(c);
    if (sim::FileSim::openFds()) c.violate("open-file", "a destroyed logger left its file open");
    c.state(hist);
    if (reopened) c.probe("log closed or reopened", reopened);
    if (most >= 3 || reopened) c.nontrivial(hist);
}
