// C29: meshes of four and five dimensions keep their topology and geometry.
// BUILD: alloc
#include "nd.h"
#include "alloc.h"
#include <functional>
#include <memory>
#include <stdexcept>
#include <GTMesh/UnstructuredMesh/MeshFunctions/CellsDistance.h>
#include <GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h>
using namespace nd;

const sim::HarnessInfo simHarness = {
    "C29", "exploration",
    "a run is a history of one mesh object of dimension 4 or 5: built by hand from a generated complex (simplices glued over faces, products of complexes, pyramids to one or both sides, any numbering and order), built again after clear, vertices moved, faces turned, centres initialised, boundary cells set up, copied; in between iterations, connections, neighbourhoods, colourings, centres, measures, normals and distances are asked for (with drawn contents of fresh memory, functions that throw) and compared with the incidence and the exact geometry of the complex; non-trivial: asked after a change of a mesh that had been asked before; distinct by history and complex",
    "MeshElements, MeshApply, MeshConnections, MeshNeighborhood, MeshColoring, ComputeCenters, ComputeMeasures, ComputeNormals, GetCenters, gramSchmidt, CellsDistance, ComputeCellsCenterDifference, UnstructuredMesh",
    "contents of fresh memory (simulated allocator), the user function (throws at the drawn call), seed of the random generator",
    "one operation",
    "cells are convex and elements of all dimensions planar|distances use the centres stored in the mesh: they are compared when those are of the present vertices",
    12000, 400000};

struct Stop { size_t at; };
template <typename MT> struct Run {
    static constexpr unsigned D = MT::meshDimension();
    typedef typename std::decay<decltype(std::declval<MT>().getCells()[0].getIndex())>::type I;
    typedef typename std::decay<decltype(std::declval<MT>().getVertices()[0][0])>::type Real;
    Ctx& c;
    size_t maxSub;
    std::unique_ptr<MT> m{new MT()};
    Complex k;
    std::unique_ptr<Inc> inc;
    bool centres = false, boundary = false, boundaryCentres = false;
    double tol = std::is_same<Real, float>::value ? 2e-3 : 1e-9;
    uint64_t hist = D;
    Run(Ctx& x, size_t s) : c(x), maxSub(s) {}

    void fresh(bool again) {
        k = make(c, D, D == 4 ? 1500 : 700, maxSub);
        inc.reset(new Inc(k));
        if (again && c.chance(1, 2, "same object")) {
            m->clear();
            size_t left = m->getVertices().size() + m->getEdges().size() + Mid<2, D>::size(*m) + m->getCells().size() + m->getBoundaryCells().size();
            if (left) c.violate("not-cleared", "%zu elements are left after clear", left);
        } else m.reset(new MT());
        build(c, *m, k);
        centres = boundary = boundaryCentres = false;
        for (unsigned d = 0; d <= D; d++) hist = sim::mix64(hist, k.count(d));
        c.ev("built: %zu vertices, %zu edges, %zu faces, %zu cells", k.count(0), k.count(1), k.count(D - 1), k.count(D));
    }
    std::vector<std::pair<size_t, bool>> sides() {
        std::vector<std::pair<size_t, bool>> r;
        for (auto& f : m->getFaces()) {
            size_t left = f.getCellLeftIndex(), right = f.getCellRightIndex();
            // the normals of these dimensions point to the left cell
            r.push_back(left < k.count(D) ? std::make_pair(left, false) : std::make_pair(right, true));
        }
        return r;
    }
    Geometry geo() { return geometry(k, *inc, sides()); }
    template <typename V> void near(const V& got, const Q& want, const char* what, unsigned d, size_t i, double scale) {
        for (unsigned j = 0; j < D; j++) if (!(std::fabs((double)got[j] - (double)want[j]) <= tol * scale)) c.violate("wrong-geometry", "%s of element %zu of dimension %u has the coordinate %u %.10g instead of %.10g", what, i, d, j, (double)got[j], (double)want[j]);
    }
    void near(double got, double want, const char* what, unsigned d, size_t i, double scale) {
        if (!(std::fabs(got - want) <= tol * scale)) c.violate("wrong-geometry", "%s of element %zu of dimension %u is %.10g instead of %.10g", what, i, d, got, want);
    }
    // --- topology
    template <typename R> void lists(const R& res, const std::vector<std::set<size_t>>& want, unsigned a, unsigned b, const char* what, bool sorted) {
        const auto& d = res.template getDataByPos<0>();
        if (d.size() != want.size()) c.violate("wrong-size", "%s %u-%u has %zu lists for %zu elements", what, a, b, d.size(), want.size());
        for (size_t i = 0; i < d.size(); i++) {
            std::set<size_t> got;
            size_t last = 0;
            for (auto& e : d[i]) {
                size_t x = (size_t)e;
                if (!got.insert(x).second) c.violate("duplicate", "%s %u-%u lists element %zu twice for element %zu", what, a, b, x, i);
                if (sorted && x < last) c.violate("not-sorted", "%s %u-%u is not sorted for element %zu", what, a, b, i);
                last = x;
            }
            if (got != want[i]) c.violate("wrong-list", "%s %u-%u lists %zu elements for element %zu which are not the %zu connected ones", what, a, b, got.size(), i, want[i].size());
        }
    }
    template <unsigned A, unsigned B> std::vector<std::pair<size_t, size_t>> visits(bool single, I start, size_t throwAt, bool& threw) {
        std::vector<std::pair<size_t, size_t>> calls;
        auto f = [&calls, throwAt](I a, I b) { calls.push_back({(size_t)a, (size_t)b}); if (calls.size() == throwAt) throw Stop{throwAt}; };
        threw = false;
        try { if (single) applyOne<A, B>(start, f, std::integral_constant<bool, (A >= B)>()); else m->template apply<A, B>(f); }
        catch (const Stop& s) { threw = true; if (s.at != throwAt) c.violate("changed-exception", "the exception arrived changed"); }
        return calls;
    }
    template <unsigned A, unsigned B, typename F> void applyOne(I start, const F& f, std::true_type) { m->template apply<A, B>(start, f); }
    template <unsigned A, unsigned B, typename F> void applyOne(I, const F&, std::false_type) {}
    template <unsigned A, unsigned B> void iterate() {
        bool single = A >= B && c.chance(1, 2, "single element"), threw;
        size_t start = single ? c.pick(inc->count[A], "start") : 0;
        auto all = visits<A, B>(single, (I)start, 0, threw);
        std::set<std::pair<size_t, size_t>> got(all.begin(), all.end()), want;
        for (size_t i = 0; i < inc->count[A]; i++) if (!single || i == start) for (size_t j : inc->rel[A][B][i]) want.insert({i, j});
        if (got != want) c.violate("wrong-visits", "apply %u-%u visits %zu pairs which are not the %zu connected ones", A, B, got.size(), want.size());
        size_t at = c.pick(all.size() + 1, "throwing call");
        auto part = visits<A, B>(single, (I)start, at, threw);
        if (threw != (at > 0)) c.violate("lost-exception", "apply %u-%u: the exception thrown at call %zu of %zu did not reach the caller", A, B, at, all.size());
        if (!std::equal(part.begin(), part.end(), all.begin()) || part.size() != (at ? at : all.size())) c.violate("wrong-sequence", "apply %u-%u interrupted at call %zu did not make the first calls", A, B, at);
        if (at) c.probe("throws an exception");
        c.ev("apply %u-%u: %zu calls, throws at %zu", A, B, all.size(), at);
    }
    template <unsigned A, unsigned B> void connect() {
        if (c.chance(1, 2, "original order")) {
            auto r = m->template connections<A, B, ORDER_ORIGINAL>();
            lists(r, inc->rel[A][B], A, B, "connections in original order", false);
            std::vector<L> order(inc->count[A]);
            m->template apply<A, B>([&order](I a, I b) { auto& l = order.at(a); if (std::find(l.begin(), l.end(), (size_t)b) == l.end()) l.push_back(b); });
            for (size_t i = 0; i < order.size(); i++) for (size_t j = 0; j < order[i].size(); j++) if ((size_t)r.template getDataByPos<0>()[i][j] != order[i][j]) c.violate("wrong-order", "connections %u-%u of element %zu are not in the order of the mesh", A, B, i);
        } else lists(m->template connections<A, B>(), inc->rel[A][B], A, B, "connections", true);
        c.ev("connections %u-%u", A, B);
    }
    template <unsigned A, unsigned B> void neighbours() {
        std::vector<std::set<size_t>> want(inc->count[A]);
        for (size_t i = 0; i < want.size(); i++) for (size_t j : inc->rel[A][B][i]) for (size_t x : inc->rel[B][A][j]) if (x != i) want[i].insert(x);
        if (c.chance(1, 3, "original order")) lists(m->template neighborhood<A, B, A, ORDER_ORIGINAL>(), want, A, B, "neighbours in original order", false);
        else lists(m->template neighborhood<A, B>(), want, A, B, "neighbours", true);
        c.ev("neighbours %u-%u", A, B);
    }
    template <unsigned A, unsigned B, typename R> void checkColours(const R& r, const char* what) {
        const auto& col = r.template getDataByPos<0>();
        if (col.size() != inc->count[A]) c.violate("wrong-size", "%s has %zu colours for %zu elements", what, col.size(), inc->count[A]);
        for (size_t j = 0; j < inc->count[B]; j++) {
            std::set<unsigned> seen;
            for (size_t i : inc->rel[B][A][j]) if (!seen.insert(col[i]).second) c.violate("same-colour", "%s: two elements of dimension %u which share element %zu of dimension %u have the colour %u", what, A, j, B, col[i]);
        }
    }
    template <unsigned A, unsigned B> void colours() {
        checkColours<A, B>(m->template coloring<A, B>(), "greedy colouring");
        unsigned seed = (unsigned)c.pick(1u << 31, "generator seed");
        auto r = m->template coloring<A, B, METHOD_RANDOM>(seed);
        checkColours<A, B>(r, "random colouring");
        sim::Alloc::fillByte((unsigned char)c.pick(256, "memory"));
        if (r.template getDataByPos<0>() != m->template coloring<A, B, METHOD_RANDOM>(seed).template getDataByPos<0>()) c.violate("not-repeatable", "two random colourings with the seed %u differ", seed);
        c.ev("colourings %u-%u", A, B);
    }
    struct Topology {
        Run& r;
        // every pair of dimensions is asked for in the meshes of size_t, a part of them in the others (time of compilation)
        template <unsigned A, unsigned B> void call() { ask<A, B>(std::integral_constant<bool, std::is_same<I, size_t>::value || (A + 2 * B) % 5 == 0>()); }
        template <unsigned A, unsigned B> void ask(std::false_type) { r.template iterate<A, B>(); }
        template <unsigned A, unsigned B> void ask(std::true_type) {
            switch (r.c.pick(4, "question")) {
            case 0: r.template iterate<A, B>(); break;
            case 1: r.template connect<A, B>(); break;
            case 2: r.template neighbours<A, B>(); break;
            default: r.template colours<A, B>(); break;
            }
        }
    };
    void topology() {
        Topology t{*this};
        unsigned a = c.pick(D + 1, "dimension"), b = c.pick(D + 1, "other dimension");
        hist = sim::mix64(hist, a * 8 + b);
        Dispatch<D>::go(a, b, t);
    }
    // --- geometry
    template <typename R, unsigned d, bool End = (d > D)> struct Each {
        static void centre(Run& r, const R& x, const Geometry& g) {
            const auto& v = x.template getDataByDim<d>();
            if (v.size() != r.k.count(d)) r.c.violate("wrong-size", "%zu centres for %zu elements of dimension %u", v.size(), r.k.count(d), d);
            for (size_t i = 0; i < v.size(); i++) r.near(v[i], g.centre[d][i], "the centre", d, i, g.scale);
            Each<R, d + 1>::centre(r, x, g);
        }
        static void measure(Run& r, const R& x, const Geometry& g) {
            const auto& v = x.template getDataByDim<d>();
            if (v.size() != r.k.count(d)) r.c.violate("wrong-size", "%zu measures for %zu elements of dimension %u", v.size(), r.k.count(d), d);
            double sum = 0, s = std::pow(g.scale, (double)d);
            for (size_t i = 0; i < v.size(); i++) { r.near((double)v[i], (double)g.measure[d][i], "the measure", d, i, s); sum += v[i]; }
            if (d == D && !(std::fabs(sum - r.k.volume) <= r.tol * s * (1 + v.size()))) r.c.violate("wrong-geometry", "the cells add up to %.10g instead of %.10g", sum, r.k.volume);
            Each<R, d + 1>::measure(r, x, g);
        }
    };
    template <typename R, unsigned d> struct Each<R, d, true> {
        static void centre(Run&, const R&, const Geometry&) {}
        static void measure(Run&, const R&, const Geometry&) {}
    };
    void init() {
        if (c.chance(1, 3, "given centres")) m->initializeCenters(m->computeElementCenters());
        else m->initializeCenters();
        centres = true; boundaryCentres = false;
        Geometry g = geo();
        for (size_t i = 0; i < k.count(D); i++) near(m->getCells()[i].getCenter(), g.centre[D][i], "the stored centre", D, i, g.scale);
        for (size_t i = 0; i < k.count(D - 1); i++) near(m->getFaces()[i].getCenter(), g.centre[D - 1][i], "the stored centre", D - 1, i, g.scale);
        c.ev("initialise centres");
    }
    void computeCentres() {
        auto r = m->computeElementCenters();
        Each<decltype(r), 1>::centre(*this, r, geo());
        c.ev("compute centres");
    }
    void measures() {
        const MT& cm = *m;
        auto r = c.chance(1, 2, "given centres") ? computeMeasures<METHOD_DEFAULT>(computeCenters<METHOD_DEFAULT>(cm), cm) : cm.computeElementMeasures();
        Each<decltype(r), 1>::measure(*this, r, geo());
        c.ev("compute measures");
    }
    void normals() {
        const MT& cm = *m;
        auto r = c.chance(1, 2, "given centres") ? ::computeFaceNormals<METHOD_DEFAULT>(computeCenters<METHOD_DEFAULT>(cm), cm) : cm.computeFaceNormals();
        Geometry g = geo();
        const auto& v = r.template getDataByPos<0>();
        if (v.size() != k.count(D - 1)) c.violate("wrong-size", "%zu normals for %zu faces", v.size(), k.count(D - 1));
        for (size_t i = 0; i < v.size(); i++) near(v[i], g.normal[i], "the normal", D - 1, i, 10);
        c.ev("compute normals");
    }
    void distances() {
        if (!centres) init();
        if (boundary && !boundaryCentres) { m->setupBoundaryCellsCenters(); boundaryCentres = true; }
        Geometry g = geo();
        auto d = computeCellsDistance(*m);
        auto v = computeCellsCenterDifference(*m);
        for (size_t i = 0; i < k.count(D - 1); i++) {
            auto& f = m->getFaces()[i];
            size_t l = f.getCellLeftIndex(), r = f.getCellRightIndex();
            Q a = l < k.count(D) ? g.centre[D][l] : g.centre[D - 1][i], b = r < k.count(D) ? g.centre[D][r] : g.centre[D - 1][i], x = sub(b, a);
            near((double)d.template getDataByPos<0>()[i], (double)std::sqrt(dot(x, x)), "the distance over the face", D - 1, i, g.scale);
            near(v.template getDataByPos<0>()[i], x, "the centre difference over the face", D - 1, i, g.scale);
        }
        c.ev("compute distances");
    }
    // --- changes
    void moveAll() {
        double big = 0;
        for (auto& p : k.pts) for (double x : p) big = std::max(big, std::fabs(x));
        if (big > 200) { fresh(true); return; }
        nd::move(c, k);
        for (size_t i = 0; i < k.pts.size(); i++) for (unsigned j = 0; j < D; j++) m->getVertices()[i][j] = (Real)k.pts[i][j];
        centres = boundaryCentres = false;
        c.ev("move the vertices");
    }
    void turn() {
        size_t n = 0;
        for (auto& f : m->getFaces()) if (c.chance(1, 3, "turn")) {
            auto l = f.getCellLeftIndex(), r = f.getCellRightIndex(), nl = f.getNextBElemWRTCL(), nr = f.getNextBElemWRTCR();
            f.setCellLeftIndex(r); f.setCellRightIndex(l); f.setNextBElemWRTCL(nr); f.setNextBElemWRTCR(nl);
            n++;
        }
        c.ev("turn %zu faces", n);
    }
    void setupBoundary() {
        if (boundary) return;
        m->setupBoundaryCells();
        boundary = true; boundaryCentres = false;
        size_t n = 0;
        for (size_t i = 0; i < k.count(D - 1); i++) {
            auto& f = m->getFaces()[i];
            size_t valid = 0;
            for (I x : {f.getCellLeftIndex(), f.getCellRightIndex()}) {
                if (x < k.count(D)) { valid++; continue; }
                size_t b = (size_t)x & (size_t)(I)EXTRACTING_INDEX(I);
                if (!isBoundaryIndex(x) || b >= m->getBoundaryCells().size() || m->getBoundaryCells()[b].getIndex() != x || m->getBoundaryCells()[b].getBoundaryElementIndex() != (I)i) c.violate("wrong-boundary", "face %zu has no boundary cell of its own", i);
                n++;
            }
            if (valid != inc->rel[D - 1][D][i].size()) c.violate("wrong-boundary", "face %zu has %zu cells instead of %zu", i, valid, inc->rel[D - 1][D][i].size());
        }
        if (n != m->getBoundaryCells().size()) c.violate("wrong-boundary", "there are %zu boundary cells for %zu sides of faces", m->getBoundaryCells().size(), n);
        c.ev("set up %zu boundary cells", n);
    }
    void copy() {
        std::unique_ptr<MT> n(c.chance(1, 2, "assign") ? new MT() : new MT(*m));
        if (n->getVertices().empty()) *n = *m;
        std::string before = dump(*m);
        if (dump(*n) != before) c.violate("wrong-copy", "a copy differs from the mesh");
        if (n->updateSignature() != m->updateSignature()) c.violate("wrong-signature", "a copy has another signature");
        size_t old = m->getSignature();
        // a change of the copy changes its signature and not the mesh
        switch (c.pick(5, "change")) {
        case 0: n->getVertices()[c.pick(k.count(0), "vertex")][c.pick(D, "coordinate")] += 1; break;
        case 1: { auto& e = n->getEdges()[c.pick(k.count(1), "edge")]; auto a = e.getVertexAIndex(); e.setVertexAIndex(e.getVertexBIndex()); e.setVertexBIndex(a); break; }
        case 2: { auto& s = n->template getElements<2>()[c.pick(k.count(2), "element")].getSubelements(); std::swap(s[0], s[1 + c.pick(s.size() - 1, "place")]); break; }
        case 3: { auto& s = n->template getElements<D - 1>()[c.pick(k.count(D - 1), "face")].getSubelements(); std::swap(s[0], s[1 + c.pick(s.size() - 1, "place")]); break; }
        default: { auto& x = n->getCells()[c.pick(k.count(D), "cell")]; x.setBoundaryElementIndex(n->getFaces()[x.getBoundaryElementIndex()].getNextBElem(x.getIndex())); break; }
        }
        if (n->updateSignature() == old) c.violate("wrong-signature", "a changed mesh has the same signature");
        if (dump(*m) != before) c.violate("wrong-copy", "a change of a copy changed the mesh");
        if (c.chance(1, 2, "go on with a copy")) { n.reset(new MT(*m)); m.swap(n); }
        c.ev("copy");
    }
    void simulate() {
        size_t ops = 2 + c.pick(8, "operations"), asked = 0;
        bool changed = false, nontrivial = false;
        fresh(false);
        for (size_t n = 0; n < ops; n++) {
            c.step();
            static const uint64_t words[] = {0xA5A5A5A5A5A5A5A5ULL, 0x7ff8000000000001ULL, 0x7fefffffffffffffULL, 0x3ff0000000000000ULL, 0x4059000042c80000ULL};
            sim::Alloc::fillWord(words[c.pick(5, "fresh memory")]);
            int op = (int)c.pick(14, "operation");
            hist = sim::mix64(hist, op * 8 + centres * 2 + boundary);
            if (op <= 8) { if (asked && changed) nontrivial = true; asked++; changed = false; } else changed = true;
            std::string before = op <= 8 && op != 8 ? dump(*m) : "";
            switch (op) {
            case 0: case 1: case 2: case 3: topology(); break;
            case 4: computeCentres(); break;
            case 5: case 6: measures(); break;
            case 7: normals(); break;
            case 8: distances(); break;
            case 9: moveAll(); break;
            case 10: turn(); break;
            case 11: setupBoundary(); break;
            case 12: if (c.chance(1, 2, "new mesh")) fresh(true); else init(); break;
            default: copy(); break;
            }
            if (!before.empty() && dump(*m) != before) c.violate("mesh-changed", "a question changed the mesh");
        }
        c.state(hist);
        if (nontrivial) c.nontrivial(hist);
    }
};
void simRun(Ctx& c) {
    switch (c.pick(4, "configuration")) {
    case 0: Run<UnstructuredMesh<4, size_t, double>>(c, 1000).simulate(); break;
    case 1: Run<UnstructuredMesh<5, size_t, double>>(c, 1000).simulate(); break;
    case 2: Run<UnstructuredMesh<4, unsigned int, double, 8, 6>>(c, 6).simulate(); break;
    default: Run<UnstructuredMesh<5, unsigned short, float, 0, 8>>(c, 8).simulate(); break;
    }
}
