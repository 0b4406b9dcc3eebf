// C19: running out of memory in any operation ends in an exception, without leaks, and the operation can be repeated.
// BUILD: alloc
#include "celldata.h"
#include "alloc.h"
#include <list>
#include <map>
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/Debug/JSONLogger.h>
#include <GTMesh/Debug/HTMLLogger.h>
#include <GTMesh/Singleton/Singleton.h>
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C19", "fault_enumeration",
    "a run performs one operation of the library (load from a stream or file in each format, export to a stream or file, centers, measures, normals, connections, neighbours, colouring, boundary cells, copy, assignment, containers, cell data export and import, serialize, save, load, logs, printing, singleton) without fault, counting its allocations, and then several times with the allocation drawn by the seed failing, once or from then on; each must end by an exception or with the right result, hold no memory or file afterwards, and the same object must then give the right result; non-trivial: an allocation failed; distinct by operation, mesh and failing allocation",
    "UnstructuredMesh, readers, writers, MeshFunctions, MeshDataContainer, VTKMeshDataWriter, VTKMeshDataReader, BinarySerializer, loggers, VariableExport, Singleton",
    "operator new/delete (simulated allocator)",
    "one operation with a failing allocation",
    "a failure which the C++ streams turn into their error state counts as reported if the state shows it",
    20000, 900000};

/// The allocations inside of `lib` are counted and fail as planned.
struct Gate {
    uint64_t failAt = 0;
    bool persistent = false;
    uint64_t count = 0, fired = 0;
    bool failed = false;
    template <typename F> void operator()(F lib) {
        if (failed) { lib(); return; }
        struct Guard { Gate& g; Guard(Gate& x) : g(x) { sim::Alloc::arm(g.failAt > g.count ? g.failAt - g.count : 0, g.persistent); }
            ~Guard() { sim::Alloc::disarm(); g.count += sim::Alloc::count(); g.fired += sim::Alloc::fired(); if (g.fired) g.failed = true; } } guard(*this);
        lib();
    }
};
template <typename F> auto held(Gate& g, F f) -> decltype(f()) {
    std::unique_ptr<decltype(f())> r;
    g([&] { r.reset(new decltype(f())(f())); });
    return std::move(*r);
}
struct StreamFailed : std::runtime_error { StreamFailed() : std::runtime_error("stream failed") {} };
/// One operation on objects it owns: may be performed again and again with the same result.
struct Op { virtual ~Op() {} virtual std::string run(Gate& g) = 0; };
struct Env { Case k; WritePlan plan; std::string text; uint64_t a = 0, b = 0; };

template <typename R> std::string listText(const R& r) {
    std::ostringstream o;
    for (auto& l : r.template getDataByPos<0>()) { for (auto x : l) o << x << " "; o << "\n"; }
    return o.str();
}
template <typename MT> struct MeshOps {
    static constexpr unsigned D = MT::meshDimension();
    typedef Types<D> TY;
    static Types<3> types(MT& m, const WritePlan& p, std::integral_constant<unsigned, 3>) { return makeTypes3(m, p); }
    static Types<2> types(MT& m, const WritePlan& p, std::integral_constant<unsigned, 2>) { return makeTypes2(m, p); }
    static void load(MT& m, const Env& e) { std::istringstream is(e.k.text); TY t; Load<D>::stream(e.k.fmt, is, m, t); }

    struct Base : Op {
        Env& e; MT m; TY t;
        explicit Base(Env& x, bool loaded = true) : e(x) { if (loaded) { load(m, e); m.initializeCenters(); t = types(m, e.plan, std::integral_constant<unsigned, D>()); } }
    };
    template <typename R> struct LoadStream : Base {
        R r;
        explicit LoadStream(Env& x) : Base(x, false) {}
        std::string run(Gate& g) override {
            std::istringstream is(this->e.k.text);
            TY t;
            g([&] { r.loadFromStream(is, this->m); t = r.getCellTypes(); });
            return dump(this->m) + dumpTypes(t);
        }
    };
    struct LoadFile : Base {
        explicit LoadFile(Env& x) : Base(x, false) { sim::writeFile(fileName(x.k.fmt), x.k.text); }
        std::string run(Gate& g) override {
            TY t;
            std::string f = std::string("./") + fileName(this->e.k.fmt);
            g([&] { auto r = this->m.load(f); t = r->getCellTypes(); });
            return dump(this->m) + dumpTypes(t);
        }
    };
    struct WriteFile : Base {
        std::unique_ptr<MeshWriter<D>> w;
        bool fpma, reuse;
        explicit WriteFile(Env& x) : Base(x), fpma(D == 3 && x.a % 2), reuse(x.b % 2) {}
        std::string run(Gate& g) override {
            std::string f = fpma ? "./out.fpma" : "./out.vtk", s;
            g([&] { if (reuse) this->m.write(f, w, this->t, "title"); else this->m.write(f, this->t, "title"); });
            sim::readFile(f.c_str() + 2, s);
            return s;
        }
    };
    struct WriteStream : Base {
        VTKMeshWriter<D> w;
        explicit WriteStream(Env& x) : Base(x) {}
        std::string run(Gate& g) override {
            sim::SimOut b;
            b.got.reserve(1 << 20);
            std::ostream o(&b);
            g([&] { w.writeHeader(o, "t"); w.writeToStream(o, this->m, this->t); if (!o) throw StreamFailed(); });
            return b.got;
        }
    };
    struct WriteFpma : Base {
        FPMAMeshWriter<3> w;
        explicit WriteFpma(Env& x) : Base(x) {}
        std::string run(Gate& g) override {
            sim::SimOut b;
            b.got.reserve(1 << 20);
            std::ostream o(&b);
            g([&] { w.writeToStream(o, this->m); if (!o) throw StreamFailed(); });
            return b.got;
        }
    };
    template <int K> struct Compute : Base {
        explicit Compute(Env& x) : Base(x) {}
        std::string run(Gate& g) override {
            std::ostringstream o;
            o.precision(17);
            std::string before = K < 2 ? "" : dump(this->m);
            call(g, o, std::integral_constant<int, K>());
            if (K >= 2 && dump(this->m) != before) return "the mesh changed";
            return o.str();
        }
        void call(Gate& g, std::ostream& o, std::integral_constant<int, 0>) { g([&] { this->m.initializeCenters(); }); o << dump(this->m); }
        void call(Gate& g, std::ostream& o, std::integral_constant<int, 1>) { g([&] { this->m.template initializeCenters<METHOD_TESSELLATED>(); }); o << dump(this->m); }
        void call(Gate& g, std::ostream& o, std::integral_constant<int, 2>) {
            auto r = held(g, [&] { return this->m.computeElementMeasures(); });
            for (auto x : r.template getDataByDim<D>()) o << x << " ";
            for (auto x : r.template getDataByDim<D - 1>()) o << x << " ";
        }
        void call(Gate& g, std::ostream& o, std::integral_constant<int, 3>) {
            auto r = held(g, [&] { return this->m.computeFaceNormals(); });
            for (auto& x : r.template getDataByDim<D - 1>()) for (unsigned i = 0; i < D; i++) o << x[i] << " ";
        }
        void call(Gate& g, std::ostream& o, std::integral_constant<int, 4>) {
            o << listText(held(g, [&] { return this->m.template connections<0, D>(); }));
            o << listText(held(g, [&] { return this->m.template connections<D, 0>(); }));
            o << listText(held(g, [&] { return this->m.template connections<D, 1, ORDER_ORIGINAL>(); }));
        }
        void call(Gate& g, std::ostream& o, std::integral_constant<int, 5>) {
            o << listText(held(g, [&] { return this->m.template neighborhood<D, 0>(); }));
            o << listText(held(g, [&] { return this->m.template neighborhood<D, D - 1, D, ORDER_ORIGINAL>(); }));
        }
        void call(Gate& g, std::ostream& o, std::integral_constant<int, 6>) {
            { auto r = held(g, [&] { return this->m.template coloring<D, 0>(); }); for (auto x : r.template getDataByPos<0>()) o << x << " "; }
            unsigned seed = (unsigned)this->e.a;
            { auto r = held(g, [&] { return this->m.template coloring<D - 1, D, METHOD_RANDOM>(seed); }); for (auto x : r.template getDataByPos<0>()) o << x << " "; }
        }
        void call(Gate& g, std::ostream& o, std::integral_constant<int, 7>) { // copies
            MT z(this->m);
            z.clear();
            g([&] { MT y(this->m); if (this->e.a % 2) { z = y; } else z = std::move(y); });
            o << dump(z);
        }
        void call(Gate& g, std::ostream& o, std::integral_constant<int, 8>) {
            typedef MeshDataContainer<std::tuple<std::vector<int>, std::string, double>, D, 0, D - 1> C;
            std::unique_ptr<C> r;
            std::vector<int> ini(3, (int)this->e.b);
            g([&] {
                r.reset(new C(this->m, ini, std::string(40, 'x'), 2.5));
                C y(*r), z;
                z = y;
                *r = z;
            });
            o << r->template getDataByPos<0>().size() << " " << r->template getDataByPos<1>().size() << " " << r->template getDataByPos<2>().size();
            for (auto& x : r->template getDataByPos<0>()) o << x.size() << x.at(1);
            for (auto& x : r->template getDataByPos<1>()) o << x;
        }
        void call(Gate& g, std::ostream& o, std::integral_constant<int, 9>) {
            size_t t = 0;
            std::list<size_t> last;
            g([&] {
                size_t n = 0;
                std::list<size_t> seen;
                this->m.template apply<D, 0>([&](size_t a, size_t b) { n += a * 31 + b; if (seen.size() < 20) seen.push_back(b); });
                t = n;
                last.swap(seen);
            });
            o << t; for (auto x : last) o << " " << x;
        }
    };
    struct Boundary : Base {
        explicit Boundary(Env& x) : Base(x) {}
        bool done = false;
        std::string run(Gate& g) override {
            if (done) { load(this->m, this->e); this->m.initializeCenters(); done = false; }
            g([&] { this->m.setupBoundaryCells(); });
            done = true;
            this->m.setupBoundaryCellsCenters();
            std::string s = dump(this->m);
            // what the elements refer to exists
            for (auto& f : this->m.getFaces()) for (size_t x : {(size_t)f.getCellLeftIndex(), (size_t)f.getCellRightIndex()})
                if (x >= this->m.getCells().size()) { size_t b = x & EXTRACTING_INDEX(size_t); if (b >= this->m.getBoundaryCells().size() || this->m.getBoundaryCells()[b].getBoundaryElementIndex() != f.getIndex()) s += "face without its boundary cell\n"; }
            return s;
        }
    };
    typedef typename std::conditional<D == 3, Data3, Data2>::type Data;
    struct DataIO : Base {
        MeshDataContainer<Data, D> d, back;
        VTKMeshWriter<D> w;
        std::string file;
        explicit DataIO(Env& x) : Base(x), d(this->m), back(this->m) {
            size_t i = 1;
            for (auto& v : d.template getDataByPos<0>()) { v = Data(); v.pressure = i++ * 1.5; v.colour = (int)i; v.velocity[0] = 2.5 + i; v.extra = 1; }
            std::ostringstream o;
            writeAll<D>(o, this->m, this->t, d, 0, "t");
            file = o.str();
            std::ostringstream u;
            w.writeHeader(u, "t"); w.writeToStream(u, this->m, this->t);
        }
    };
    struct DataOut : DataIO {
        explicit DataOut(Env& x) : DataIO(x) {}
        std::string run(Gate& g) override {
            sim::SimOut b;
            std::ostream o(&b);
            b.got.reserve(1 << 20);
            g([&] { VTKMeshDataWriter<D>::writeToStream(o, this->d, this->w, std::tuple<>()); if (!o) throw StreamFailed(); });
            return b.got;
        }
    };
    struct DataIn : DataIO {
        explicit DataIn(Env& x) : DataIO(x) {}
        std::string run(Gate& g) override {
            std::istringstream is(this->file);
            g([&] { VTKMeshDataReader<D, size_t>::readFromStream(is, this->back); });
            std::ostringstream o;
            for (auto& v : this->back.template getDataByPos<0>()) o << v.pressure << " " << v.colour << " " << v.velocity[0] << "\n";
            return o.str();
        }
    };
};
struct Rec { std::string name; std::vector<double> v; std::map<int, std::vector<std::string>> m; };
MAKE_ATTRIBUTE_TRAIT(Rec, name, v, m);
static Rec rec(const Env& e) {
    Rec r;
    r.name = std::string(20 + e.a % 50, 'n');
    for (size_t i = 0; i < e.b % 20; i++) r.v.push_back(i);
    for (size_t i = 0; i < e.a % 5; i++) r.m[i] = std::vector<std::string>(i, std::string(30, 'a' + (char)i));
    return r;
}
static std::string text(const Rec& r) { std::ostringstream o; o << r.name; for (double x : r.v) o << " " << x; for (auto& p : r.m) { o << p.first; for (auto& s : p.second) o << s; } return o.str(); }
struct Serialize : Op {
    Env& e; BinarySerializer s;
    explicit Serialize(Env& x) : e(x) {}
    std::string run(Gate& g) override {
        Rec r = rec(e), q;
        BinarySerializer t;
        g([&] { t.write(r); t.write(5); });
        g([&] { s = t; s.resetIterator(); });
        g([&] { s.read(q); });
        return text(q);
    }
};
struct SaveLoad : Op {
    Env& e; BinarySerializer s;
    explicit SaveLoad(Env& x) : e(x) {}
    std::string run(Gate& g) override {
        Rec r = rec(e), q;
        s.clear();
        s.write(r);
        g([&] { s.saveToFile("./data.bin"); });
        g([&] { s.loadFromFile("./data.bin"); });
        s.read(q);
        return text(q);
    }
};
template <typename L> struct Log : Op {
    Env& e;
    explicit Log(Env& x) : e(x) {}
    std::string run(Gate& g) override {
        std::string t;
        { // a logger may lose what could not be stored but must stay usable
            std::ostringstream sink;
            std::streambuf* old = std::cerr.rdbuf(sink.rdbuf());
            struct Back { std::streambuf* o; ~Back() { std::cerr.rdbuf(o); std::cerr.clear(); } } back{old};
            std::vector<std::vector<int>> v(3, std::vector<int>(5, 1));
            Rec r = rec(e);
            g([&] { L a("./a.log"); a.writeVar(1, "f.cpp", "expression long enough for the heap", v, "r.name", r.name); });
            L l;
            l.create("./b.log");
            l.writeVar(1, "f.cpp", "v", v);
            l.destroy();
        }
        sim::readFile("b.log", t);
        return t;
    }
};
struct Print : Op {
    Env& e;
    explicit Print(Env& x) : e(x) {}
    std::string run(Gate& g) override {
        Rec r = rec(e);
        std::string t;
        g([&] { std::ostringstream o; VariableExport::exportVariable(o, r.m); VariableExport::exportVariable(o, r.v); VariableExport::exportVariable(o, std::make_pair(r.name, 2)); if (!o) throw StreamFailed(); t = o.str(); });
        return t;
    }
};
struct Counted {
    static int alive, made;
    std::vector<int> v;
    std::string s;
    Counted() : v(100, 7), s(60, 'c') { alive++; made++; }
    ~Counted() { alive--; }
};
int Counted::alive = 0, Counted::made = 0;
template <int I> struct Single : Counted {};
struct Single1 : Op {
    std::string run(Gate& g) override {
        std::string t;
        g([&] { t = Singleton<Single<0>>::getInstance().s; });
        if (Counted::made != 1 || Counted::alive != 1) return "constructed " + std::to_string(Counted::made) + " times";
        return t;
    }
};

struct Named { const char* name; bool mesh; std::function<Op*(Env&)> make; };
template <typename MT> void addMesh(std::vector<Named>& ops, int fmt, std::integral_constant<unsigned, 3>) {
    typedef MeshOps<MT> M;
    ops.push_back({"export to a stream as FPMA", true, [](Env& e) -> Op* { return new typename M::WriteFpma(e); }});
    if (fmt == VTK3) ops.push_back({"load VTK from a stream", true, [](Env& e) -> Op* { return new typename M::template LoadStream<VTKMeshReader<3>>(e); }});
    else ops.push_back({"load FPMA from a stream", true, [](Env& e) -> Op* { return new typename M::template LoadStream<FPMAMeshReader<3>>(e); }});
}
template <typename MT> void addMesh(std::vector<Named>& ops, int, std::integral_constant<unsigned, 2>) {
    ops.push_back({"load 2D VTK from a stream", true, [](Env& e) -> Op* { return new typename MeshOps<MT>::template LoadStream<VTKMeshReader<2>>(e); }});
}
template <typename MT> static void world(Ctx& c, int fmt) {
    constexpr unsigned D = MT::meshDimension();
    typedef MeshOps<MT> M;
    std::vector<Named> ops;
    addMesh<MT>(ops, fmt, std::integral_constant<unsigned, D>());
#define OP(n, T) ops.push_back({n, true, [](Env& e) -> Op* { return new typename M::T(e); }})
    OP("load from a file", LoadFile);
    OP("write to a file", WriteFile);
    OP("export to a stream", WriteStream);
    OP("boundary cells", Boundary);
    OP("cell data export", DataOut);
    OP("cell data import", DataIn);
#undef OP
#define OP(n, K) ops.push_back({n, true, [](Env& e) -> Op* { return new typename M::template Compute<K>(e); }})
    OP("centers", 0); OP("tessellated centers", 1); OP("measures", 2); OP("normals", 3); OP("connections", 4); OP("neighbours", 5); OP("colouring", 6); OP("copy", 7); OP("data container", 8); OP("apply", 9);
#undef OP
    ops.push_back({"serialize", false, [](Env& e) -> Op* { return new Serialize(e); }});
    ops.push_back({"save and load", false, [](Env& e) -> Op* { return new SaveLoad(e); }});
    ops.push_back({"JSON log", false, [](Env& e) -> Op* { return new Log<JSONLogger>(e); }});
    ops.push_back({"HTML log", false, [](Env& e) -> Op* { return new Log<HtmlLogger>(e); }});
    ops.push_back({"print", false, [](Env& e) -> Op* { return new Print(e); }});
    ops.push_back({"singleton", false, [](Env&) -> Op* { return new Single1(); }});
    Env e;
    const Named& n = ops[c.pick(ops.size(), "operation")];
    if (n.mesh) {
        GenOpt o;
        o.small3 = 4; o.big3 = 25; o.small2 = 6; o.big2 = 40;
        e.k = genCase(c, fmt, o);
        for (size_t i = 0; i < e.k.topo.cellFaces.size(); i++) e.plan.types.push_back(fmt == FPMA3 ? 0 : e.k.topo.types[i]);
        if (D == 3 && fmt == VTK3) for (auto& t : e.plan.types) if (c.chance(1, 4, "written as a polyhedron")) t = 0;
    }
    e.a = c.pick(1000, "parameter");
    e.b = c.pick(1000, "parameter");
    sim::enterScratch(c);
    std::string want;
    uint64_t total = 0;
    bool single = strcmp(n.name, "singleton") == 0;
    if (!single) {
        std::unique_ptr<Op> w(n.make(e));
        { Gate g; w->run(g); }                       // warm up
        std::unique_ptr<Op> x(n.make(e));
        Gate g;
        want = x->run(g);
        total = g.count;
        std::string again;
        { Gate h; again = x->run(h); }
        if (again != want) c.violate("not-repeatable", "%s: performed again without fault it gives another result: %s", n.name, diffLine(want, again).c_str());
    } else { want = std::string(60, 'c'); total = 3; }
    c.ev("%s%s%s: %llu allocations", n.name, n.mesh ? ", " : "", n.mesh ? describe(e.k).c_str() : "", (unsigned long long)total);
    if (!total) { c.probe("operation without allocation"); return; }
    size_t tries = single ? 1 : 1 + c.pick(4, "attempts");
    uint64_t sig = 0;
    for (size_t k = 0; k < tries; k++) {
        uint64_t at = c.chance(1, 3, "early") ? 1 + c.pick(std::min<uint64_t>(total, 20), "allocation") : 1 + c.pick(total, "allocation");
        bool persistent = c.chance(1, 3, "persistent");
        long grown = 0;
        bool once = false;
        // a leak grows with every attempt; something kept once does not
        for (int rep = 0; rep < 4; rep++) {
            long before = sim::Alloc::liveBlocks();
            uint64_t fds = sim::FileSim::openFds();
            {
                std::unique_ptr<Op> x(n.make(e));
                Gate g;
                g.failAt = at;
                g.persistent = persistent;
                std::string got, what;
                bool threw = false;
                try { got = x->run(g); }
                catch (const std::exception& ex) { threw = true; what = ex.what(); }
                catch (...) { threw = true; what = "not an exception"; }
                sim::Alloc::disarm();
                bool fired = g.fired;
                if (!rep) {
                    c.step();
                    c.ev("allocation %llu fails%s: %s", (unsigned long long)at, persistent ? " and all later ones" : "", threw ? what.substr(0, 100).c_str() : fired ? "result" : "not reached");
                    if (fired) { c.probe(n.name); sig = sim::mix64(sig, at * 2 + persistent); }
                    if (fired && threw) c.probe("exception"); else if (fired) c.probe("result in spite of the failure");
                }
                once |= fired;
                if (threw && !fired) c.violate("spurious-error", "%s: no allocation failed but it threw %s", n.name, what.c_str());
                if (!threw && got != want) c.violate("wrong-result", "%s with failing allocation %llu%s of %llu returned another result: %s", n.name, (unsigned long long)at, persistent ? " and later ones" : "", (unsigned long long)total, diffLine(want, got).c_str());
                if (rep % 2 == 0 || single) { // the same object works when there is memory again
                    Gate h;
                    std::string again;
                    try { again = x->run(h); }
                    catch (const std::exception& ex) { c.violate("not-repeatable", "%s: after the failure of allocation %llu%s it cannot be repeated: %s", n.name, (unsigned long long)at, persistent ? " and later ones" : "", ex.what()); }
                    if (again != want) c.violate("not-repeatable", "%s: after the failure of allocation %llu%s of %llu the repetition gives another result: %s", n.name, (unsigned long long)at, persistent ? " and later ones" : "", (unsigned long long)total, diffLine(want, again).c_str());
                }
            }
            if (sim::FileSim::openFds() != fds) c.violate("open-file", "%s: a file stays open after the failure of allocation %llu", n.name, (unsigned long long)at);
            long g = sim::Alloc::liveBlocks() - before;
            if (single) break;
            if (rep == 0) grown = g;
            if (g <= 0) { grown = 0; break; }
        }
        if (grown > 0) c.violate("leak", "%s: every failure of allocation %llu%s of %llu leaves %ld blocks of memory", n.name, (unsigned long long)at, persistent ? " and later ones" : "", (unsigned long long)total, grown);
        (void)once;
    }
    c.state(sim::hashStr(n.name, sig));
    if (sig) c.nontrivial(sim::mix64(sim::hashStr(n.name, sig), n.mesh ? signature(e.k) : e.a * 1000 + e.b));
}
void simRun(Ctx& c) {
    switch (c.pick(4, "mesh kind")) {
    case 0: world<UnstructuredMesh<2, size_t, double>>(c, VTK2); break;
    case 1: world<UnstructuredMesh<3, size_t, double>>(c, VTK3); break;
    case 2: world<UnstructuredMesh<3, size_t, double>>(c, FPMA3); break;
    case 3: world<UnstructuredMesh<3, size_t, double, 6>>(c, VTK3); break;
    }
}
