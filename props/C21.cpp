// C21: connections, neighbourhoods and colourings match the topology, whatever the seed.
// BUILD: alloc
#include "incidence.h"
#include "alloc.h"
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C21", "exploration",
    "a run loads a generated mesh (2D or 3D, all cell kinds, three index and storage configurations), optionally sets up boundary cells, and asks for connections, neighbourhoods and colourings of drawn dimensions, orders and methods with drawn seeds of the random generator and drawn contents of fresh memory; every answer is compared with the incidence read directly from the elements; non-trivial: an answer over different dimensions; distinct by mesh shape and question",
    "MeshConnections, MeshNeighborhood, MeshColoring, MeshApply, MeshDataContainer, std::mt19937 seeded by the run",
    "contents of fresh memory (simulated allocator), seed of the random generator",
    "one question",
    "",
    40000, 1200000};

/// Many elements around one: more colours than any usual mesh needs.
static Case fan2(Ctx& c) {
    Case k;
    k.fmt = VTK2;
    size_t n = c.chance(1, 10, "large fan") ? 200 + c.pick(400, "fan") : 9 + c.skew(90, "fan");
    for (size_t i = 0; i < n; i++) k.m2.pts.push_back({{double(i) - 7, double((i * i) % 17), 0}});
    if (c.chance(1, 2, "one polygon")) {
        Cell p{VTK_POLY, {}};
        for (size_t i = 0; i < n; i++) p.v.push_back(i);
        k.m2.cells.push_back(p);
    } else {
        k.m2.pts.push_back({{0.5, 0.5, 0}});
        for (size_t i = 0; i < n; i++) k.m2.cells.push_back(Cell{VTK_TRI, {n, i, (i + 1) % n}});
    }
    k.topo = topo(k.m2);
    VtkStyle s(c);
    k.text = vtkText(c, k.m2, s);
    return k;
}
static Case fan3(Ctx& c) {
    Case k;
    k.fmt = FPMA3;
    size_t n = c.chance(1, 10, "large fan") ? 200 + c.pick(200, "fan") : 6 + c.skew(60, "fan");
    PolyMesh& p = k.poly;
    for (int z = 0; z < 2; z++) for (size_t i = 0; i < n; i++) p.pts.push_back({{double(i), double((i * i) % 13), double(z)}});
    if (c.chance(1, 2, "one prism")) {
        Cycle a, b;
        for (size_t i = 0; i < n; i++) { a.push_back(i); b.push_back(n + i); }
        p.faces.push_back(a); p.faces.push_back(b);
        p.cells.push_back({0, 1});
        for (size_t i = 0; i < n; i++) { p.faces.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i}); p.cells[0].push_back(2 + i); }
    } else {
        size_t u = 2 * n, v = 2 * n + 1;
        p.pts.push_back({{0, 0, 0}}); p.pts.push_back({{0, 0, 1}});
        for (size_t i = 0; i < n; i++) { // face 4 i: inner side, then outer, bottom, top
            size_t j = (i + 1) % n;
            p.faces.push_back({u, i, n + i, v});
            p.faces.push_back({i, j, n + j, n + i});
            p.faces.push_back({u, i, j});
            p.faces.push_back({v, n + i, n + j});
            p.cells.push_back({4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3, 4 * j});
        }
    }
    k.topo = topo(p);
    k.text = fpmaText(c, p, true);
    return k;
}
template <typename MT> struct World {
    static constexpr unsigned D = MT::meshDimension();
    Ctx& c;
    MT mesh;
    std::unique_ptr<incidence::Inc<D>> inc;
    uint64_t sig = 0;
    explicit World(Ctx& cc) : c(cc) {}

    template <unsigned A, unsigned B, typename R> void checkLists(const R& res, const std::vector<std::set<size_t>>& want, const char* what, bool sorted) {
        const auto& d = res.template getDataByPos<0>();
        if (d.size() != want.size()) c.violate("wrong-size", "%s from dimension %u to %u has %zu lists for %zu elements", what, A, B, d.size(), want.size());
        for (size_t i = 0; i < d.size(); i++) {
            std::set<size_t> got;
            size_t last = 0;
            for (size_t j = 0; j < d[i].size(); j++) {
                size_t x = static_cast<size_t>(d[i][j]);
                if (!got.insert(x).second) c.violate("duplicate", "%s from dimension %u to %u lists element %zu twice for element %zu", what, A, B, x, i);
                if (sorted && j && x < last) c.violate("not-sorted", "%s from dimension %u to %u is not sorted for element %zu", what, A, B, i);
                last = x;
            }
            if (got != want[i]) {
                for (size_t x : want[i]) if (!got.count(x)) c.violate("missing", "%s from dimension %u to %u: element %zu lacks %zu", what, A, B, i, x);
                for (size_t x : got) if (!want[i].count(x)) c.violate("extra", "%s from dimension %u to %u: element %zu lists %zu which is not connected", what, A, B, i, x);
            }
        }
    }
    template <unsigned A, unsigned B, bool Down> struct FirstVisit {
        static std::vector<std::vector<size_t>> get(const MT& m, size_t n) {
            std::vector<std::vector<size_t>> r(n);
            m.template apply<A, B>([&r](typename std::decay<decltype(m.getCells()[0].getIndex())>::type a, typename std::decay<decltype(m.getCells()[0].getIndex())>::type b) {
                auto& l = r.at(a);
                if (std::find(l.begin(), l.end(), (size_t)b) == l.end()) l.push_back(b);
            });
            return r;
        }
    };
    template <unsigned A, unsigned B> void connections() {
        const auto& want = inc->rel[A][B];
        if (c.chance(1, 2, "original order")) {
            auto res = mesh.template connections<A, B, ORDER_ORIGINAL>();
            checkLists<A, B>(res, want, "connections in original order", false);
            auto order = FirstVisit<A, B, (A > B)>::get(mesh, inc->count[A]);
            const auto& d = res.template getDataByPos<0>();
            for (size_t i = 0; i < d.size(); i++) for (size_t j = 0; j < d[i].size(); j++)
                if (static_cast<size_t>(d[i][j]) != order[i][j]) c.violate("wrong-order", "connections %u to %u of element %zu are not in the order of the mesh", A, B, i);
            c.ev("connections %u-%u original", A, B);
        } else {
            checkLists<A, B>(mesh.template connections<A, B>(), want, "connections", true);
            c.ev("connections %u-%u", A, B);
        }
        if (A != B) note(1, A, B, 0);
    }
    void note(int q, unsigned a, unsigned b, unsigned d) { sig = sim::mix64(sig, q * 1000 + a * 100 + b * 10 + d + 1); }
    template <unsigned A, unsigned B, unsigned C> void neighbours() {
        std::vector<std::set<size_t>> want(inc->count[A]);
        for (size_t i = 0; i < want.size(); i++) {
            for (size_t j : inc->rel[A][B][i]) for (size_t k : inc->rel[B][C][j]) if (!(A == C && k == i)) want[i].insert(k);
        }
        if (c.chance(1, 3, "original order")) checkLists<A, C>(mesh.template neighborhood<A, B, C, ORDER_ORIGINAL>(), want, "neighbours in original order", false);
        else checkLists<A, C>(mesh.template neighborhood<A, B, C>(), want, "neighbours", true);
        c.ev("neighbours %u-%u-%u", A, B, C);
        note(2, A, B, C);
    }
    template <unsigned A, unsigned B, typename R> void checkColours(const R& res, const char* what) {
        const auto& col = res.template getDataByPos<0>();
        if (col.size() != inc->count[A]) c.violate("wrong-size", "%s of dimension %u has %zu colours for %zu elements", what, A, col.size(), inc->count[A]);
        for (size_t j = 0; j < inc->count[B]; j++) {
            std::map<unsigned, size_t> seen;
            for (size_t i : inc->rel[B][A][j]) {
                auto r = seen.insert({col[i], i});
                if (!r.second) c.violate("same-colour", "%s: elements %zu and %zu of dimension %u share element %zu of dimension %u and have both the colour %u", what, r.first->second, i, A, j, B, col[i]);
            }
        }
        size_t maxc = 0;
        for (unsigned x : col) maxc = std::max<size_t>(maxc, x);
        if (!col.empty() && maxc >= col.size()) c.violate("wild-colour", "%s of %zu elements uses the colour %zu", what, col.size(), maxc);
        if (maxc >= 16) c.probe("more than 16 colours");
    }
    template <unsigned A, unsigned B> void colours() {
        auto g = mesh.template coloring<A, B>();
        checkColours<A, B>(g, "greedy colouring");
        if (c.chance(1, 2, "random")) {
            unsigned seed = (unsigned)c.pick(1u << 31, "generator seed");
            bool std0 = false;
            switch (c.pick(8, "special seed")) { case 1: seed = 0; break; case 2: seed = ~0u; break; case 3: std0 = true; break; }
            auto r = std0 ? mesh.template coloring<A, B, METHOD_RANDOM>() : mesh.template coloring<A, B, METHOD_RANDOM>(seed);
            checkColours<A, B>(r, "random colouring");
            sim::Alloc::fillByte((unsigned char)c.pick(256, "memory"));
            auto r2 = std0 ? mesh.template coloring<A, B, METHOD_RANDOM>() : mesh.template coloring<A, B, METHOD_RANDOM>(seed);
            if (r.template getDataByPos<0>() != r2.template getDataByPos<0>()) c.violate("not-repeatable", "two random colourings with the seed %u differ", seed);
            if (r.template getDataByPos<0>() != g.template getDataByPos<0>()) c.probe("random colouring differs from greedy");
            c.probe("random colouring");
        }
        c.ev("colouring %u-%u", A, B);
        note(3, A, B, 0);
    }
    template <unsigned A, unsigned B> void ask() {
        switch (c.pick(3, "question")) {
        case 0: connections<A, B>(); break;
        case 1: neighbours<A, B, A>(); break;
        case 2: colours<A, B>(); break;
        }
    }
    template <unsigned A> void ask1() {
        switch (c.pick(D + 1, "other dimension")) {
        case 0: ask<A, 0>(); break;
        case 1: ask<A, 1>(); break;
        case 2: ask<A, 2>(); break;
        case 3: ask<A, D>(); break;
        }
    }
    void ask0() {
        if (c.chance(1, 6, "three dimensions")) {
            switch (c.pick(4, "which")) {
            case 0: neighbours<D, D - 1, 0>(); break;
            case 1: neighbours<0, D, 1>(); break;
            case 2: neighbours<1, 0, D>(); break;
            case 3: neighbours<D - 1, D, 0>(); break;
            }
            return;
        }
        switch (c.pick(D + 1, "dimension")) {
        case 0: ask1<0>(); break;
        case 1: ask1<1>(); break;
        case 2: ask1<2>(); break;
        case 3: ask1<D>(); break;
        }
    }
    void run(std::vector<int> fmts, bool wide) {
        GenOpt o;
        o.small3 = 5; o.big3 = 40; o.small2 = 8; o.big2 = wide ? 120 : 60;
        o.template forMesh<MT>();
        int fmt = c.of(fmts, "format");
        Case k = c.chance(1, 8, "fan") && fmt != VTK3 ? (fmt == VTK2 ? fan2(c) : fan3(c)) : genCase(c, fmt, o);
        std::istringstream is(k.text);
        Types<D> types;
        Load<D>::stream(k.fmt, is, mesh, types);
        c.ev("%s", describe(k).c_str());
        cases::modify(c, mesh);
        inc.reset(new incidence::Inc<D>(mesh));
        std::string before = dump(mesh);
        size_t n = 1 + c.pick(5, "questions");
        for (size_t i = 0; i < n; i++) {
            sim::Alloc::fillByte((unsigned char)c.pick(256, "memory"));
            c.step();
            ask0();
        }
        if (dump(mesh) != before) c.violate("mesh-changed", "a question changed the mesh");
        c.state(sig);
        if (sig) c.nontrivial(sim::mix64(sig, signature(k)));
    }
};
void simRun(Ctx& c) {
    size_t kind = c.pick(33, "mesh kind");
    switch (kind == 32 ? 4 : kind % 4) {
    case 0: { World<UnstructuredMesh<3, size_t, double>> w(c); w.run({VTK3, FPMA3}, false); break; }
    case 1: { World<UnstructuredMesh<2, size_t, double>> w(c); w.run({VTK2}, true); break; }
    case 2: { World<UnstructuredMesh<3, unsigned int, float, 8>> w(c); w.run({VTK3}, false); break; }
    case 3: { model::largeMeshes() = false; World<UnstructuredMesh<2, unsigned short, float>> w(c); w.run({VTK2}, false); break; }
    case 4: { // an empty mesh
        World<UnstructuredMesh<3, size_t, double>> w(c);
        w.inc.reset(new incidence::Inc<3>(w.mesh));
        size_t n = 1 + c.pick(3, "questions");
        for (size_t i = 0; i < n; i++) { c.step(); w.ask0(); }
        c.probe("empty mesh");
        break;
    }
    }
}
