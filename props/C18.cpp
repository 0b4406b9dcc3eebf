// C18: independent objects do not influence each other across threads.
// BUILD: tsan
#include "meshops.h"
#include "vtkout.h"
#include "logs.h"
#include "threads.h"
#include "fileio.h"
#include <map>
#include <deque>
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/Debug/JSONLogger.h>
#include <GTMesh/Debug/HTMLLogger.h>
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
using namespace cases;
using namespace meshops;
using sim::Sched;

const sim::HarnessInfo simHarness = {
    "C18", "exploration",
    "a run lets two to four simulated threads each perform a program of its own (up to six steps: load a good or damaged mesh from a stream or file, query it, write it by own writers to a stream or file, store and load cell data, serialise, save and load, logs, printing, arithmetic of structures) on objects of its own; the scheduler switches at drawn memory accesses, the disk makes short and interrupted calls, and in some runs one thread runs out of memory; each thread must get what the same program gives alone (computed before or after), no two accesses of different threads to the same memory, one of them a write, may be unordered; non-trivial: at least two threads; distinct by interleaving",
    "all parts of the library but the debug macros with their common output, templates of the C++ library",
    "threads (one at a time, chosen by the tape), locks and guards of the C++ run time, memory allocator, open/read/write/close (simulated)",
    "one switch of threads",
    "sequentially consistent memory with happens-before race detection|code inside of shared libraries is not instrumented|std::cerr is shared by the loggers and not checked",
    10000, 500000};

struct State { double rho; Vector<3, double> u; int n; };
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(State, rho, u);
struct Inner { double a; int b; std::vector<int> c; };
MAKE_ATTRIBUTE_TRAIT(Inner, a, b, c);
struct Stored { std::string name; std::vector<double> v; std::map<int, std::vector<std::string>> m; Inner s; };
MAKE_ATTRIBUTE_TRAIT(Stored, name, v, m, s);

struct Step { int kind; Param p; };
struct Plan { int mesh; Case k; std::string bad; std::vector<Step> steps; };
static const int KINDS = 14;
static const char* kindName(int k) {
    static const char* n[] = {"load from a stream", "load a damaged stream", "load from a file", "query", "query", "export by own writer", "write to a file", "serialize", "save and load", "JSON log", "HTML log", "print", "arithmetic", "cell data"};
    return n[k];
}
static Stored stored(unsigned seed) {
    Stored r;
    r.name = std::string(seed % 60, 'n');
    for (unsigned i = 0; i < seed % 9; i++) r.v.push_back(i * 0.5 + seed);
    for (unsigned i = 0; i < seed % 4; i++) r.m[(int)i] = std::vector<std::string>(i, std::string(10 * i, (char)('a' + i)));
    r.s.a = seed; r.s.b = (int)seed - 7; r.s.c.assign(seed % 5, 3);
    return r;
}
static void put(Digest& d, const Stored& r) {
    d.add(r.name); d.add(r.v);
    for (auto& p : r.m) { d.add(p.first); for (auto& s : p.second) d.add(s); }
    d.add(r.s.a); d.add(r.s.b); d.add(r.s.c);
}
static std::string fileText(const std::string& name) { std::string t; sim::readFile(name.c_str(), t); return t; }

// UnstructuredMesh::write is for meshes with the default types
template <typename MT, typename W, typename T> void writeMesh(MT& m, const std::string& f, W& w, T& t, bool again, std::true_type) {
    if (again) m.write(f, w, t, "title"); else w = m.write(f, t, "title");
}
template <typename MT, typename W, typename T> void writeMesh(MT&, const std::string& f, W&, T&, bool, std::false_type) { sim::writeFile(f.c_str() + 2, ""); }
/// The objects of one thread and its program.
template <typename MT> struct Worker {
    static constexpr unsigned D = MT::meshDimension();
    typedef typename MT::Vertex V;
    typedef typename std::decay<decltype(std::declval<V>()[0])>::type Real;
    typedef typename std::decay<decltype(std::declval<V>().getIndex())>::type Index;
    MT mesh;
    Types<D> types;
    VTKMeshWriter<D, Index, Real> writer;
    std::unique_ptr<MeshWriter<D>> fileWriter;
    BinarySerializer s;
    const Plan& p;
    std::string pre;
    Worker(const Plan& x, const std::string& prefix) : p(x), pre(prefix) {}
    void load() {
        std::istringstream is(p.k.text);
        Load<D>::stream(p.k.fmt, is, mesh, types);
        mesh.initializeCenters();
    }
    void begin() { load(); }
    uint64_t step(const Step& t) {
        Digest d;
        switch (t.kind) {
        case 0: load(); d.add(dump(mesh) + dumpTypes(types)); break;
        case 1: {
            MT other;
            Types<D> ty;
            std::istringstream is(p.bad);
            try { Load<D>::stream(p.k.fmt, is, other, ty); d.add(dump(other)); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { d.add(std::string(e.what())); }
            break;
        }
        case 2: {
            std::string f = pre + (t.p.method % 2 ? "_" : "") + fileName(p.k.fmt);
            sim::writeFile(f.c_str(), p.k.text);
            auto r = mesh.load("./" + f);
            types = r->getCellTypes();
            d.add(dump(mesh) + dumpTypes(types));
            mesh.initializeCenters();
            break;
        }
        case 3: case 4: d.add(readOnly(mesh, types, t.p)); break;
        case 5: {
            std::ostringstream o;
            o.precision(6 + t.p.seed % 12);
            writer.writeHeader(o, "title");
            writer.writeToStream(o, mesh, types);
            d.add(o.str());
            break;
        }
        case 6: {
            std::string f = pre + (D == 3 && t.p.method % 2 ? "out.fpma" : "out.vtk");
            writeMesh(mesh, "./" + f, fileWriter, types, t.p.method % 3 && f == last, std::integral_constant<bool, std::is_same<Index, size_t>::value && std::is_same<Real, double>::value>());
            last = f;
            d.add(::fileText(f));
            break;
        }
        case 7: {
            Stored a = stored(t.p.seed), b;
            s.clear();
            s << a << (int)t.p.seed;
            s.write(std::vector<double>(t.p.seed % 7, 1.5));
            int n = 0;
            std::vector<double> v;
            s.resetIterator();
            s >> b >> n;
            s.read(v);
            put(d, b);
            d.add(n);
            d.add(v);
            for (auto x : s.getData()) d.add((unsigned)x);
            break;
        }
        case 8: {
            Stored a = stored(t.p.seed), b;
            s.clear();
            s.write(a);
            s.saveToFile("./" + pre + "data.bin");
            BinarySerializer r;
            r.loadFromFile("./" + pre + "data.bin");
            r.read(b);
            put(d, b);
            d.add(::fileText(pre + "data.bin"));
            break;
        }
        case 9: case 10: {
            std::string f = pre + (t.kind == 9 ? "log.json" : "log.html");
            Stored a = stored(t.p.seed);
            if (t.kind == 9) { JSONLogger l; l.create(f.c_str()); l.writeVar(3, "file.cpp", "a.v", a.v, "a.s", a.s); if (t.p.method % 2) l.writeVar("x", a.name); l.destroy(); }
            else { HtmlLogger l; l.create(f.c_str()); l.writeVar(3, "file.cpp", "a.v", a.v, "a.s", a.s); if (t.p.method % 2) l.writeVar(4, "f.cpp", "x", a.name); l.destroy(); }
            d.add(::fileText(f));
            break;
        }
        case 11: {
            Stored a = stored(t.p.seed);
            std::ostringstream o;
            VariableExport::exportVariable(o, a.m);
            VariableExport::exportVariable(o, a);
            VariableExport::exportVariable(o, a.s);
            VariableExport::exportVariable(o, std::make_pair(a.name, t.p.seed % 2 == 0));
            VariableExport::exportVariable(o, t.p.method % 2 == 0);
            VariableExport::exportVariable(o, std::deque<int>(t.p.seed % 5, 8));
            d.add(o.str());
            break;
        }
        case 12: {
            State a, b;
            a.rho = t.p.seed; a.u = Vector<3, double>{1, 2, (double)t.p.method}; a.n = 1;
            b.rho = 0.5; b.u = Vector<3, double>{3, 1, 2}; b.n = 2;
            State r = a + b * 2.0 - a / 4.0;
            r += a;
            r *= 0.5;
            d.add(r.rho); d.add(r.u);
            d.add(max(r)); d.add(sum(r));
            auto m = a * 1.5;
            d.add(m.rho); d.add(m.u);
            break;
        }
        case 13: {
            Param q = t.p;
            q.what = 14;
            d.add(readOnly(mesh, types, q));
            break;
        }
        }
        return d.h;
    }
    std::string last;
    void program(std::vector<uint64_t>& out) {
        begin();
        for (size_t i = 0; i < p.steps.size(); i++) out[i] = step(p.steps[i]);
    }
};
static void program(const Plan& p, const std::string& prefix, std::vector<uint64_t>& out) {
    switch (p.mesh) {
    case 0: { Worker<UnstructuredMesh<2, size_t, double>> w(p, prefix); w.program(out); break; }
    case 1: case 2: { Worker<UnstructuredMesh<3, size_t, double>> w(p, prefix); w.program(out); break; }
    case 3: { Worker<UnstructuredMesh<2, unsigned short, float>> w(p, prefix); w.program(out); break; }
    }
}
void simRun(Ctx& c) {
    model::largeMeshes() = false;
    sim::enterScratch(c);
    sim::FilePlan disk = logs::quiet(c);
    disk.locale = 0;   // the streams of the threads themselves follow it
    sim::FileSim::arm(disk);
    size_t n = 2 + c.pick(3, "threads");
    std::vector<Plan> plan(n);
    std::vector<std::vector<uint64_t>> got(n), want(n);
    GenOpt o;
    o.small3 = 2; o.big3 = 4; o.small2 = 3; o.big2 = 8; o.maxPoly = 4;
    bool alike = c.chance(1, 2, "alike");
    int kind = (int)c.pick(4, "mesh kind"), favourite = (int)c.pick(KINDS, "favourite step");
    Param one = genParam(c);
    bool sameText = alike && c.chance(1, 2, "the same file");
    for (size_t t = 0; t < n; t++) {
        Plan& p = plan[t];
        p.mesh = alike ? kind : (int)c.pick(4, "mesh kind");
        static const int fmt[] = {VTK2, VTK3, FPMA3, VTK2};
        if (t && sameText) { p.k = plan[0].k; p.bad = plan[0].bad; }
        else {
            p.k = genCase(c, fmt[p.mesh], o);
            p.bad = p.k.text.substr(0, c.pick(p.k.text.size() + 1, "cut"));
        }
        size_t s = 1 + c.pick(6, "steps");
        for (size_t i = 0; i < s; i++) {
            Step x;
            x.p = genParam(c);
            x.kind = alike && c.chance(1, 2, "favourite") ? favourite : (int)c.pick(KINDS, "step");
            if (alike && c.chance(1, 2, "alike")) { x.p.what = one.what; x.p.method = one.method; }
            p.steps.push_back(x);
            c.probe(kindName(x.kind));
            c.ev("thread %zu: %s (%s %d)", t, kindName(x.kind), x.kind == 3 || x.kind == 4 ? opName(x.p.what) : "variant", x.p.method);
        }
        got[t].assign(s, 1);
        want[t].assign(s, 2);
        c.ev("thread %zu: %s", t, describe(p.k).c_str());
    }
    int victim = c.chance(1, 6, "out of memory") ? (int)c.pick(n, "victim") : -1;
    uint64_t nth = victim >= 0 ? 1 + c.skew(4096, "allocation") : 0;
    bool failed = false;
    auto alone = [&] { for (size_t t = 0; t < n; t++) program(plan[t], "alone" + std::to_string(t), want[t]); };
    bool first = c.chance(1, 2, "alone first");
    if (first) alone();
    std::vector<std::function<void()>> fns;
    for (size_t t = 0; t < n; t++) {
        const Plan* p = &plan[t];
        std::vector<uint64_t>* out = &got[t];
        std::string prefix = "t" + std::to_string(t);
        if ((int)t == victim)
            fns.push_back([p, out, prefix, &failed] {
                Sched::mayFail(true);
                try { program(*p, prefix, *out); } catch (const std::exception& e) { failed = true; }
                Sched::mayFail(false);
            });
        else fns.push_back([p, out, prefix] { program(*p, prefix, *out); });
    }
    Sched::failAlloc(nth);
    Sched::run(c, fns);
    bool oom = Sched::allocFailures() > 0;
    if (oom) c.probe("a thread ran out of memory");
    if (failed && !oom) c.violate("exception-in-thread", "thread %d ended by an exception", victim);
    sim::FileSim::report(c);
    if (!first) alone();
    for (size_t t = 0; t < n; t++) {
        if (oom && (int)t == victim) continue;
        for (size_t i = 0; i < plan[t].steps.size(); i++)
            if (got[t][i] != want[t][i]) { auto& x = plan[t].steps[i]; c.violate("wrong-result", "thread %zu, step %zu: %s (%s %d) gave another result than alone", t, i, kindName(x.kind), x.kind == 3 || x.kind == 4 ? opName(x.p.what) : "variant", x.p.method); }
    }
    c.nontrivial(c.hash());
}
