// C28: the debug macros record what the program passes to them and leave the program as it is.
// BUILD: debug
#include "logs.h"
#include <csignal>
#include <cstring>
#include <stdexcept>
#include <map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <GTMesh/Debug/Debug.h>
using namespace logs;

const sim::HarnessInfo simHarness = {
    "C28", "exploration",
    "a run executes a generated program (up to 12 uses of the debug macros at 30 call sites, in branches, loops, lambdas, nested and with throwing arguments) in a process of its own, compiled with or without UNDEBUG, under a simulated disk (short writes, interrupted calls, full disk, failing open) and ended by return, exit, a failing DBGTRY, abort, an uncaught exception or a kill at a drawn step; checked are the evaluations of every expression, the branches taken, the exit status, the console text and the complete (or cut) JSON and HTML files; non-trivial: at least two macros were reached; distinct by program and end",
    "Debug.h macros, MacroForEach, Singleton, JSONLogger, HtmlLogger, ConsoleLogger, VariableExport, static destruction, std::ofstream",
    "open/write/close system calls (simulated), end of the process",
    "one macro of the program",
    "text without quotes, backslashes and control characters|one thread uses the macros|no macros are used in destructors of static objects",
    6000, 300000};

struct Step { int site; int i[10]; double d; char text[16]; bool cond, outer, bad; };
enum { MAXSTEPS = 12 };
struct Shared {
    int evals[MAXSTEPS][10], conds[MAXSTEPS], marks[MAXSTEPS][3], line[MAXSTEPS], nested[MAXSTEPS];
    int reached, escaped;
};
#define PROG ProgOn
#include "dbgprog.h"
#undef PROG
// the same program without debugging
#undef DEBUG_H
#undef STRVAR
#undef DBGVAR
#undef DBGVARCOND
#undef DBGVAR_STDIO
#undef DBGVARCOND_STDIO
#undef DBGMSG
#undef DBGTRY
#undef DBGVAR_HTML
#undef DBGVARCOND_HTML
#undef DBGVAR_CSV
#undef DBGVARCOND_CSV
#undef DBGVAR_JSON
#undef DBGVARCOND_JSON
#undef DBGCHECK
#undef DBGCHECK_STDIO
#define UNDEBUG
#include <GTMesh/Debug/Debug.h>
#define PROG ProgOff
#include "dbgprog.h"
#undef PROG

/// What one step has to do.
struct Expect {
    int evals[10] = {}, conds = 0, marks[3] = {};
    bool ends = false;                        // DBGTRY ended the program
    bool throws = false;                      // leaves run() by an exception
    std::vector<Entry> json, html;
    std::string err, out;
};
struct Config { bool col, agg, onlyName, fun, reset; std::string ident; };

static std::string num6(double d) { char b[64]; snprintf(b, sizeof b, "%g", d); return b; }
struct Model {
    const Step& s; const Config& k; Expect& e; std::string file, base; int line, nestedLine; size_t& call;
    std::string func = "run";
    std::string head() const { return (k.onlyName ? base : file) + ":" + std::to_string(line) + (k.fun ? " <" + func + "> " : ""); }
    static json::Node n(double v) { return num(v); }
    static json::Node str(const std::string& t) { json::Node r; r.kind = 's'; r.str = t; return r; }
    static json::Node boolean(bool b) { json::Node r; r.kind = 'b'; r.bit = b; return r; }
    json::Node vec() const { json::Node r; r.kind = 'a'; for (int j = 0; j < 3; j++) r.items.push_back(num(s.i[j])); return r; }
    static std::string show(const json::Node& v) {
        if (v.kind == 'n') return num6(v.num);
        if (v.kind == 's') return "\"" + v.str + "\"";
        if (v.kind == 'b') return v.bit ? "true" : "false";
        std::string r = "[ ";
        for (size_t i = 0; i < v.items.size(); i++) r += (i ? ", " : "") + show(v.items[i]);
        return r + " ]";
    }
    typedef std::vector<std::pair<std::string, json::Node>> Vars;
    void log(std::vector<Entry>& to, const Vars& v, int at = 0) {
        call++;
        for (auto& x : v) { Entry en; en.hasLine = true; en.line = at ? at : line; en.file = file; en.expr = x.first; en.data = x.second; en.call = call; to.push_back(en); }
    }
    void console(const Vars& v) {
        if (k.agg) e.err += "== " + head() + "\n";
        for (auto& x : v) e.err += (k.agg ? k.ident : "== " + head() + " ") + "[[ " + x.first + " ]] ==> " + show(x.second) + "\n";
    }
    void message(const char* prefix, const json::Node& v) { e.err += prefix + head() + "==> " + show(v) + " <==\n"; }
    void stdio(const Vars& v) { for (auto& x : v) e.out += "== " + file + ": " + std::to_string(line) + " <" + func + "> [[ " + x.first + " ]] ==> " + show(x.second) + "\n"; }
    void evals(int a, int b = 0, int c = 0) { int v[3] = {a, b, c}; for (int j = 0; j < 3; j++) e.evals[j] += v[j]; }
    void tryFails(const char* what) { message("!!", str(std::string("something went wrong in try block: ") + what)); e.ends = true; }
    void on() {
        std::string t = s.text;
        const int* i = s.i;
        switch (s.site) {
        case 0: evals(1); console({{"I(0)", n(i[0])}}); break;
        case 1: evals(1, 1, 1); console({{"I(0)", n(i[0])}, {"S(1)", str(t)}, {"V(2)", vec()}}); break;
        case 2: evals(1, 1, 1); console({{"std::max(I(0), I(1)) + 1", n(std::max(i[0], i[1]) + 1)}, {"D(2) * 2", n(s.d * 2)}}); break;
        case 3: e.conds = 1; if (s.cond) { evals(1, 1); console({{"I(0)", n(i[0])}, {"S(1)", str(t)}}); } break;
        case 4: if (s.outer) { e.conds = 1; if (s.cond) { evals(1); console({{"I(0)", n(i[0])}}); } } else e.marks[0]++; break;
        case 5: evals(1); e.err += "++" + head() + "==> a message <==\n"; message("++", n(i[0])); break;
        case 6: e.err += "--" + head() + "==> check line <==\n"; break;
        case 7: evals(1); if (s.bad) tryFails("bad value"); else e.marks[0]++; break;
        case 8: evals(1); e.marks[0]++; if (s.bad) tryFails("bad value"); else { e.marks[1]++; e.marks[2]++; } break;
        case 9: evals(1); log(e.html, {{"I(0)", n(i[0])}}); break;
        case 10: evals(1, 1, 1); log(e.html, {{"S(0)", str(t)}, {"V(1)", vec()}, {"I(2) == 'x'", boolean(i[2] == 'x')}}); break;
        case 11: e.conds = 1; if (s.cond) { evals(1, 1); log(e.html, {{"D(0)", n(s.d)}, {"I(1)", n(i[1])}}); } break;
        case 12: if (s.outer) { e.conds = 1; if (s.cond) { evals(1); log(e.html, {{"I(0)", n(i[0])}}); } } else e.marks[0]++; break;
        case 13: evals(1); log(e.json, {{"I(0)", n(i[0])}}); break;
        case 14: evals(1, 1); log(e.json, {{"S(0)", str(t)}, {"st().text == \"key\\n\"", boolean(false)}, {"V(1)", vec()}}); break;
        case 15: e.conds = 1; if (s.cond) { evals(1, 1); log(e.json, {{"I(0) % 7", n(i[0] % 7)}, {"D(1)", n(s.d)}}); } break;
        case 16: if (s.outer) { e.conds = 1; if (s.cond) { evals(1); log(e.json, {{"I(0)", n(i[0])}}); } } else e.marks[0]++; break;
        case 17: for (int m = 0; m < i[0] % 5; m++) { e.evals[1]++; log(e.json, {{"n", n(m)}, {"I(1)", n(i[1])}}); } break;
        case 18: if (s.outer) { e.evals[0]++; log(e.json, {{"I(0)", n(i[0])}}); } else { e.evals[1]++; log(e.html, {{"I(1)", n(i[1])}}); } break;
        case 19: { Vars v; for (int j = 0; j < 10; j++) { e.evals[j]++; v.push_back({"I(" + std::to_string(j) + ")", n(i[j])}); } log(e.json, v); break; }
        case 20: evals(1, 1); log(e.json, {{"inner", n(i[0])}}, nestedLine); log(e.json, {{"nested(0)", n(i[0] + 1)}, {"I(1)", n(i[1])}}); break;
        case 21: e.evals[0] = -1; e.evals[1] = 1; if (s.bad) e.marks[1]++; else { e.evals[0] = 1; e.marks[0]++; log(e.json, {{"I(0)", n(i[0])}, {"may(I(1))", n(i[1])}}); } break;
        case 22: evals(1); if (s.bad) e.marks[1]++; else e.marks[0]++; break;
        case 23: evals(1); if (s.bad) e.marks[1]++; else { e.marks[0]++; log(e.html, {{"may(I(0))", n(i[0])}}); } break;
        case 24: evals(1, 1); stdio({{"I(0)", n(i[0])}, {"D(1)", n(s.d)}}); break;
        case 25: if (s.outer) { e.conds = 1; if (s.cond) { evals(1); stdio({{"I(0)", n(i[0])}}); } } else e.marks[0]++; break;
        case 26: e.out += "-- " + file + ": " + std::to_string(line) + " <" + func + "> ==> check line <==\n"; break;
        case 27: evals(0, 1); func = "operator()"; console({{"x", n(i[0])}, {"S(1)", str(t)}}); break;
        case 28: evals(1); message("++", str(t)); break;
        case 29: e.evals[1] = 1; log(e.html, {{"n", n(i[0] % 3)}, {"I(1)", n(i[1])}}); break;
        }
    }
    void off() {
        switch (s.site) {
        case 4: case 12: case 16: case 25: if (!s.outer) e.marks[0]++; break;
        case 7: evals(1); if (s.bad) e.throws = true; else e.marks[0]++; break;
        case 8: evals(1); e.marks[0]++; if (s.bad) e.throws = true; else { e.marks[1]++; e.marks[2]++; } break;
        case 21: case 23: e.marks[0]++; break;
        case 22: evals(1); if (s.bad) e.marks[1]++; else e.marks[0]++; break;
        }
    }
};

enum End { atReturn, byExit, byExitInStep, byUnderscore, byAbort, byKill, byThrow };
static const char* endNames[] = {"returned", "exit(7) before step", "", "_exit before step", "abort before step", "kill before step", "uncaught exception before step"};

struct Plan { std::vector<Step> steps; bool off; int end; size_t endAt; Config k; sim::FilePlan disk; };

static int execute(Shared* sh, const Plan& p, bool faults, bool toTheEnd) {
    memset(sh, 0, sizeof *sh);
    unlink("DBG.json"); unlink("DBG.html"); unlink("err.txt"); unlink("out.txt");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        for (int sig : {SIGABRT, SIGTERM}) signal(sig, SIG_DFL);
        int e = open("err.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600), o = open("out.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(e, 2); dup2(o, 1); close(e); close(o);
        auto& log = dbg::getDebugConsoleLogger();
        log.setColoredOutput(p.k.col); log.setPrintAggregated(p.k.agg); log.setOnlyFliename(p.k.onlyName); log.setPrintFunction(p.k.fun);
        if (p.k.reset) { log.setIdentation("another "); log.setColoredOutput(!p.k.col); log.setPrintFunction(false); log.setOnlyFliename(true); log.setPrintAggregated(false); log.reset(); }
        else log.setIdentation(p.k.ident);
        if (faults) sim::FileSim::arm(p.disk);
        ProgOn on(*sh, p.steps.data());
        ProgOff off(*sh, p.steps.data());
        for (size_t i = 0; i <= p.steps.size(); i++) {
            if (!toTheEnd && p.end != atReturn && i == p.endAt) switch (p.end) {
            case byExit: exit(7);
            case byUnderscore: _exit(7);
            case byAbort: abort();
            case byKill: raise(SIGKILL);
            case byThrow: std::set_terminate([] { abort(); }); [&]() noexcept { throw 1; }();
            }
            if (i == p.steps.size()) break;
            sh->reached = (int)i + 1;
            try { if (p.off) off.run(i); else on.run(i); } catch (const std::exception&) { sh->escaped = (int)i + 1; exit(3); }
        }
        exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return st;
}
static std::string slurp(const char* f) { std::string t; sim::readFile(f, t); return t; }
static std::string plain(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\033') { while (i < s.size() && s[i] != 'm') i++; } else r += s[i]; }
    return r;
}

void simRun(Ctx& c) {
    static Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sim::enterScratch(c);
    Plan p;
    p.off = c.chance(1, 6, "without debugging");
    size_t n = 1 + c.pick(MAXSTEPS, "macros");
    int focus = (int)c.pick(4, "kind of program");       // anything, JSON, HTML, console
    static const std::vector<int> sites[] = {{}, {13, 14, 15, 16, 17, 18, 19, 20, 21}, {9, 10, 11, 12, 18, 23, 29}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 24, 25, 26, 27, 28}};
    for (size_t i = 0; i < n; i++) {
        Step s;
        memset(&s, 0, sizeof s);
        s.site = focus && !c.chance(1, 6, "any site") ? c.of(sites[focus], "site") : (int)c.pick(30, "site");
        for (int& x : s.i) x = (int)c.pick(200, "value");
        s.d = number(c);
        std::string t = text(c);
        strncpy(s.text, t.c_str(), sizeof s.text - 1);
        s.cond = c.chance(1, 2, "condition");
        s.outer = c.chance(1, 2, "outer condition");
        s.bad = c.chance(1, 5, "throws");
        p.steps.push_back(s);
    }
    p.k.col = c.chance(1, 2, "colours"); p.k.agg = c.chance(1, 2, "aggregated"); p.k.onlyName = c.chance(1, 2, "only name"); p.k.fun = c.chance(1, 2, "function");
    p.k.ident = c.chance(1, 3, "identation") ? "  . " : ConsoleLogger().getIdentation();
    p.k.reset = c.chance(1, 5, "reset of the console");
    if (p.k.reset) { ConsoleLogger d; p.k.col = d.getColoredOutput(); p.k.agg = d.getPrintAggregated(); p.k.onlyName = d.getOnlyFilename(); p.k.fun = d.getPrintFunction(); p.k.ident = d.getIdentation(); }
    static const int ends[] = {atReturn, byExit, byUnderscore, byAbort, byKill, byThrow};
    p.end = c.chance(1, 2, "ends early") ? ends[c.pick(6, "end")] : (int)atReturn;
    p.endAt = c.pick(n + 1, "end at");
    p.disk = quiet(c);
    bool badDisk = c.chance(1, 6, "failing disk");
    if (badDisk) switch (c.pick(3, "fault")) {
        case 0: p.disk.failOpenNth = 1 + c.pick(2, "open"); p.disk.openErrno = EACCES; c.probe("open of a log fails"); break;
        case 1: p.disk.diskFullAfter = c.pick(8000, "bytes"); c.probe("disk becomes full"); break;
        case 2: p.disk.failWriteNth = 1 + c.pick(4, "write"); p.disk.writeErrno = EIO; c.probe("write to a log fails"); break;
    }
    bool crash = p.end >= byUnderscore;
    // what has to happen
    int st = execute(sh, p, true, false);
    Shared r = *sh;
    std::string json = slurp("DBG.json"), html = slurp("DBG.html"), err = slurp("err.txt"), out = slurp("out.txt");
    bool haveJson = access("DBG.json", F_OK) == 0, haveHtml = access("DBG.html", F_OK) == 0;
    std::vector<Entry> wantJson, wantHtml;
    std::string wantErr, wantOut;
    size_t call = 0, reached = 0;
    int wantExit = 0;
    bool ended = false;
    for (size_t i = 0; i < n && !ended; i++) {
        if (p.end != atReturn && i == p.endAt) break;
        reached++;
        Expect e;
        Model m{p.steps[i], p.k, e, ProgOn::file(), "dbgprog.h", r.line[i], r.nested[i], call};
        if (p.off) m.off(); else m.on();
        wantJson.insert(wantJson.end(), e.json.begin(), e.json.end());
        wantHtml.insert(wantHtml.end(), e.html.begin(), e.html.end());
        wantErr += e.err; wantOut += e.out;
        for (int k = 0; k < 10; k++) if (e.evals[k] >= 0 && r.evals[i][k] != e.evals[k])
            c.violate("wrong-evaluation", "step %zu (site %d): argument %d was evaluated %d times instead of %d%s", i, p.steps[i].site, k, r.evals[i][k], e.evals[k], p.off ? " with UNDEBUG" : "");
        if (r.evals[i][0] > 1 && p.steps[i].site != 17) c.violate("wrong-evaluation", "step %zu (site %d): the first argument was evaluated %d times", i, p.steps[i].site, r.evals[i][0]);
        if (r.conds[i] != e.conds) c.violate("wrong-evaluation", "step %zu (site %d): the condition was evaluated %d times instead of %d", i, p.steps[i].site, r.conds[i], e.conds);
        for (int k = 0; k < 3; k++) if (r.marks[i][k] != e.marks[k])
            c.violate("changed-program", "step %zu (site %d): statement %d of the program around the macro ran %d times instead of %d%s", i, p.steps[i].site, k, r.marks[i][k], e.marks[k], p.off ? " with UNDEBUG" : "");
        if (e.ends) { ended = true; wantExit = 1; c.probe("DBGTRY ended the program"); }
        if (e.throws) { ended = true; wantExit = 3; }
        c.ev("step %zu: site %d%s%s%s", i, p.steps[i].site, p.steps[i].outer ? " outer" : "", p.steps[i].cond ? " cond" : "", p.steps[i].bad ? " bad" : "");
        c.step();
    }
    bool crashed = crash && !ended;
    if (p.end == byExit && !ended) wantExit = 7;
    c.ev("%s, %s %zu; status %d", p.off ? "without debugging" : "with debugging", ended ? "ended by a step," : endNames[p.end], reached, st);
    if (r.reached != (int)reached) c.violate("changed-program", "the program reached %d of %zu steps", r.reached, reached);
    if (crashed) {
        c.probe(p.end == byKill ? "process killed" : p.end == byUnderscore ? "process left by _exit" : "process aborted");
        if (p.end == byKill ? !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) : p.end == byUnderscore ? !(WIFEXITED(st) && WEXITSTATUS(st) == 7) : !(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT))
            c.violate("changed-program", "the program ended with the status 0x%x; console: %s", st, sim::printable(err, 300).c_str());
    } else if (!WIFEXITED(st) || WEXITSTATUS(st) != wantExit) c.violate("wrong-exit", "the program ended with the status 0x%x instead of exit(%d); console: %s", st, wantExit, sim::printable(err, 600).c_str());
    // console
    if (!p.off && !p.k.col && err.find('\033') != err.npos) c.violate("wrong-console", "colours in spite of being switched off");
    std::string pe = plain(err);
    static const std::string bye = "writing end of the script\n";
    if (!p.off && pe.size() >= bye.size() && pe.compare(pe.size() - bye.size(), bye.size(), bye) == 0) pe.resize(pe.size() - bye.size());
    if (pe != wantErr) c.violate("wrong-console", "the console shows %s instead of %s", sim::printable(pe, 500).c_str(), sim::printable(wantErr, 500).c_str());
    if (crashed ? wantOut.compare(0, out.size(), out) != 0 : out != wantOut) c.violate("wrong-console", "stdout has %s instead of %s", sim::printable(out, 500).c_str(), sim::printable(wantOut, 500).c_str());
    // files
    c.mix(json); c.mix(html); c.mix(pe);
    if (p.off ? haveJson || haveHtml : false) c.violate("wrong-files", "a log file was written with UNDEBUG");
    if (!badDisk && !crashed) {
        if (haveJson != !wantJson.empty() && !p.off) c.violate("wrong-files", "%s JSON log although %zu values were logged", haveJson ? "a" : "no", wantJson.size());
        if (haveHtml != !wantHtml.empty() && !p.off) c.violate("wrong-files", "%s HTML log although %zu values were logged", haveHtml ? "a" : "no", wantHtml.size());
        if (haveJson) checkJson(c, "DBG.json", wantJson);
        if (haveHtml) checkHtml(c, "DBG.html", wantHtml);
    } else if (haveJson || haveHtml) {
        // what is there is the beginning of what the undisturbed program writes
        execute(sh, p, false, crashed);
        std::string fj = slurp("DBG.json"), fh = slurp("DBG.html");
        auto prefix = [&](const char* what, std::string got, std::string full) {
            if (full.compare(0, got.size(), got) != 0) c.violate("wrong-prefix", "the %s log of the %s program (%zu bytes) is not the beginning of the complete log", what, crashed ? "crashed" : "disturbed", got.size());
        };
        prefix("JSON", json, fj);
        prefix("HTML", html, fh);
        c.probe("cut log files", (haveJson ? 1 : 0) + (haveHtml ? 1 : 0));
    }
    uint64_t sig = sim::mix64(p.off, p.end);
    for (size_t i = 0; i < reached; i++) sig = sim::mix64(sig, p.steps[i].site * 8 + p.steps[i].cond * 4 + p.steps[i].outer * 2 + p.steps[i].bad);
    c.state(sig);
    if (reached >= 2) c.nontrivial(sig);
}
