// C27: a data container keeps exactly one value per element through any history.
// BUILD: alloc
#include "cases.h"
#include "alloc.h"
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C27", "exploration",
    "a run loads two or three generated meshes and performs a history on up to three data containers of one type (9 types: one value type or a tuple of them, one to four dimensions in any order): construct for a mesh with and without initial values, allocate again for another mesh or like another container, copy, move, assign, swap, write and read by element, index, checked index and position; operations run out of memory at a drawn allocation or the copied value throws; fresh memory has drawn contents; after every operation all sizes and values must be those of the model; non-trivial: at least 3 operations that change a container; distinct by history",
    "MeshDataContainer (both forms), DataContainer, MeshElements, ElementIndex",
    "operator new/delete and contents of fresh memory (simulated allocator)",
    "one operation",
    "allocating again keeps the values of the elements that remain, as the containers are vectors|moved-from containers are only assigned, allocated anew or destroyed",
    40000, 1200000};

/// A value whose copy can throw and whose instances are counted.
struct Fussy {
    static long live, copiesLeft;
    std::string tag;
    Fussy() { live++; }
    Fussy(const std::string& t) : tag(t) { live++; }
    Fussy(const Fussy& o) : tag((count(), o.tag)) { live++; }
    Fussy(Fussy&& o) noexcept : tag(std::move(o.tag)) { live++; }
    Fussy& operator=(const Fussy& o) { count(); tag = o.tag; return *this; }
    Fussy& operator=(Fussy&& o) noexcept { tag = std::move(o.tag); return *this; }
    ~Fussy() { live--; }
    static void count() { if (copiesLeft > 0 && --copiesLeft == 0) throw std::runtime_error("copy of a value"); }
    bool operator==(const Fussy& o) const { return tag == o.tag; }
};
long Fussy::live = 0, Fussy::copiesLeft = 0;

template <typename T> struct Mk;
template <> struct Mk<double> { static double of(uint64_t t) { return t ? (double)t + 0.25 : 0.0; } };
template <> struct Mk<int> { static int of(uint64_t t) { return (int)t; } };
template <> struct Mk<unsigned char> { static unsigned char of(uint64_t t) { return t ? 1 + t % 255 : 0; } };
template <> struct Mk<std::string> { static std::string of(uint64_t t) { return t ? "value number " + std::to_string(t) + " of the container" : ""; } };
template <> struct Mk<std::vector<int>> { static std::vector<int> of(uint64_t t) { return t ? std::vector<int>(1 + t % 7, (int)t) : std::vector<int>(); } };
template <> struct Mk<Vector<3, double>> { static Vector<3, double> of(uint64_t t) { Vector<3, double> v; for (int i = 0; i < 3; i++) v[i] = t ? t * 3.0 + i : 0.0; return v; } };
template <> struct Mk<Fussy> { static Fussy of(uint64_t t) { return t ? Fussy("value number " + std::to_string(t) + " of the container") : Fussy(); } };
template <typename T> bool eq(const T& a, uint64_t t) { return a == Mk<T>::of(t); }

typedef std::vector<std::vector<uint64_t>> Model;   // tags by position

/// Calls f with the position as a constant, for position p or all of them (p == -1).
template <typename C, unsigned P = 0, bool End = (P == C::size())> struct Each {
    template <typename F> static void run(int p, F f) {
        if (p < 0 || p == (int)P) f(std::integral_constant<unsigned, P>());
        Each<C, P + 1>::run(p, f);
    }
};
template <typename C, unsigned P> struct Each<C, P, true> { template <typename F> static void run(int, F) {} };

template <typename C> struct Info;
template <typename T, unsigned... D> struct Info<MeshDataContainer<T, D...>> {
    typedef MeshDataContainer<T, D...> C;
    static constexpr bool tuple = false;
    template <unsigned P> using Value = T;
    static std::vector<unsigned> dims() { return {D...}; }
    template <typename MT> static C* make(const MT& m, const std::vector<uint64_t>& init, int how) {
        if (how == 1) return new C(m, std::integer_sequence<unsigned, D...>(), T());
        if (how == 2) return new C(m, Mk<T>::of(init[0]));
        if (how == 3) return new C(m, Mk<T>::of(init[0]), std::integer_sequence<unsigned, D...>(), T());
        return new C(m);
    }
    template <typename MT> static void allocate(C& c, const MT& m, const std::vector<uint64_t>* init) {
        if (init) c.allocateData(m, Mk<T>::of((*init)[0])); else c.allocateData(m);
    }
    /// The initial value is one of the values of the container itself.
    static bool sameType(size_t, size_t) { return true; }
    template <typename MT> static void allocateOwn(C& c, const MT& m, const std::vector<size_t>& at) {
        Each<C>::run((int)at[0], [&](auto P) { c.allocateData(m, c.template getDataByPos<decltype(P)::value>()[at[1]]); });
    }
    static void like(C& c, const C& o, const std::vector<uint64_t>* init) {
        if (init) c.allocateData(o, Mk<T>::of((*init)[0])); else c.allocateData(o);
    }
    template <typename MT> static void likeOther(C& c, const MT& m, const std::vector<uint64_t>* init) {
        MeshDataContainer<char, 0, 1, 2, MT::meshDimension()> o(m);
        if (init) c.allocateData(o, Mk<T>::of((*init)[0])); else c.allocateData(o);
    }
};
template <typename... T, unsigned... D> struct Info<MeshDataContainer<std::tuple<T...>, D...>> {
    typedef MeshDataContainer<std::tuple<T...>, D...> C;
    static constexpr bool tuple = true;
    template <unsigned P> using Value = std::tuple_element_t<P, std::tuple<T...>>;
    static std::vector<unsigned> dims() { return {D...}; }
    template <typename MT, size_t... I> static C* make2(const MT& m, const std::vector<uint64_t>& init, std::index_sequence<I...>) { return new C(m, Mk<T>::of(init[I])...); }
    template <typename MT> static C* make(const MT& m, const std::vector<uint64_t>& init, int how) {
        if (how >= 2) return make2(m, init, std::index_sequence_for<T...>());
        return new C(m);
    }
    template <typename MT, size_t... I> static void alloc2(C& c, const MT& m, const std::vector<uint64_t>& init, std::index_sequence<I...>) { c.allocateData(m, Mk<T>::of(init[I])...); }
    template <typename MT> static void allocate(C& c, const MT& m, const std::vector<uint64_t>* init) {
        if (init) alloc2(c, m, *init, std::index_sequence_for<T...>()); else c.allocateData(m);
    }
    /// Value i of position q if it has the type of position P, otherwise value i of position P.
    template <size_t P> static const Value<P>& own(C& c, size_t q, size_t i) {
        const Value<P>* r = nullptr;
        Each<C>::run(-1, [&](auto Q) {
            if (decltype(Q)::value == q) { auto& v = c.template getDataByPos<decltype(Q)::value>(); r = same(v.data() + i, r); }
        });
        return *r;
    }
    template <typename V> static const V* same(const V* v, const V*) { return v; }
    template <typename V, typename W> static const W* same(const V*, const W* w) { return w; }
    template <typename MT, size_t... I> static void own2(C& c, const MT& m, const std::vector<size_t>& at, std::index_sequence<I...>) { c.allocateData(m, own<I>(c, at[2 * I], at[2 * I + 1])...); }
    template <typename MT> static void allocateOwn(C& c, const MT& m, const std::vector<size_t>& at) { own2(c, m, at, std::index_sequence_for<T...>()); }
    static bool sameType(size_t p, size_t q) { std::vector<const std::type_info*> t{&typeid(T)...}; return *t[p] == *t[q]; }
    static void like(C& c, const C& o, const std::vector<uint64_t>* init) { allocate(c, o, init); }
    template <typename MT> static void likeOther(C& c, const MT& m, const std::vector<uint64_t>* init) { C o(m); like(c, o, init); }
};
template <typename MT> size_t countOf(const MT& m, unsigned d) {
    switch (d) {
    case 0: return m.template getElements<0>().size();
    case 1: return m.template getElements<1>().size();
    case 2: return m.template getElements<2>().size();
    default: return m.template getElements<MT::meshDimension()>().size();
    }
}
template <typename C, typename MT> struct Runner {
    typedef Info<C> I;
    typedef typename std::decay<decltype(std::declval<MT>().getVertices()[0].getIndex())>::type Index;
    static constexpr unsigned N = C::size();
    Ctx& c;
    std::vector<std::unique_ptr<MT>>& meshes;
    std::unique_ptr<C> slot[3];
    Model model[3];
    bool moved[3] = {false, false, false};
    uint64_t next = 1;
    Runner(Ctx& x, std::vector<std::unique_ptr<MT>>& m) : c(x), meshes(m) {}

    std::vector<uint64_t> tags() { std::vector<uint64_t> t(N); uint64_t one = next++; for (auto& x : t) x = I::tuple ? next++ : one; return t; }
    void check(int s, const char* what) {
        if (!slot[s] || moved[s]) return;
        const C& k = *slot[s];
        Each<C>::run(-1, [&](auto P) {
            constexpr unsigned p = decltype(P)::value;
            constexpr unsigned d = C::template dimensionAt<p>();
            const auto& v = k.template getDataByPos<p>();
            if (v.size() != model[s][p].size()) c.violate("wrong-size", "after %s container %d has %zu values for dimension %u instead of %zu", what, s, v.size(), d, model[s][p].size());
            for (size_t i = 0; i < v.size(); i++)
                if (!eq(v[i], model[s][p][i])) c.violate("wrong-value", "after %s container %d has a wrong value for element %zu of dimension %u", what, s, i, d);
            if (&k.template getDataByDim<d>() != (const void*)&v) c.violate("wrong-dimension", "the data of dimension %u are not the data at position %u", d, p);
            if (&k[std::integer_sequence<unsigned, p>()] != &v) c.violate("wrong-position", "indexing by position %u gives other data", p);
            if (v.getMappedDimension() != d) c.violate("wrong-dimension", "the data at position %u are mapped to dimension %u", p, v.getMappedDimension());
        });
    }
    Model sized(const std::vector<size_t>& sizes, const Model& old, const std::vector<uint64_t>* init) {
        Model m(N);
        for (unsigned p = 0; p < N; p++) {
            if (p < old.size()) m[p] = old[p];
            m[p].resize(sizes[p], init ? (*init)[p] : 0);
        }
        return m;
    }
    std::vector<size_t> sizesOf(const MT& m) { std::vector<size_t> r; for (unsigned d : I::dims()) r.push_back(countOf(m, d)); return r; }
    std::vector<size_t> sizesOf(const Model& m) { std::vector<size_t> r; for (auto& v : m) r.push_back(v.size()); return r; }

    /// Runs f, possibly with a failing allocation or copy; true if it failed.
    template <typename F> bool attempt(bool mayFail, const char* what, F f) {
        bool fail = mayFail && c.chance(1, 4, "fails");
        bool byCopy = fail && std::is_same<typename I::template Value<0>, Fussy>::value && c.chance(1, 2, "by the copy");
        if (fail && byCopy) Fussy::copiesLeft = 1 + (long)c.skew(40, "failing copy");
        else if (fail) sim::Alloc::arm(1 + c.skew(60, "failing allocation"), c.chance(1, 3, "persistent"));
        bool threw = false;
        try { f(); } catch (const std::bad_alloc&) { threw = true; } catch (const std::runtime_error&) { threw = true; }
        bool fired = byCopy ? Fussy::copiesLeft == 0 : fail && sim::Alloc::fired();
        Fussy::copiesLeft = 0;
        sim::Alloc::disarm();
        if (fail && fired) c.probe(byCopy ? "the copy of a value throws" : "allocation fails");
        if (threw && !(fail && fired)) c.violate("spurious-error", "%s threw without a failure", what);
        c.ev("%s: %s", what, threw ? "failed" : "done");
        return threw;
    }
    /// After a failed allocation each dimension is as before or as wanted.
    void settle(int s, const Model& before, const Model& wanted, const char* what) {
        Model now(N);
        Each<C>::run(-1, [&](auto P) {
            constexpr unsigned p = decltype(P)::value;
            const auto& v = slot[s]->template getDataByPos<p>();
            const std::vector<uint64_t> none;
            const std::vector<uint64_t>& b = p < before.size() ? before[p] : none;
            now[p] = v.size() == b.size() ? b : wanted[p];
            if (v.size() != now[p].size()) c.violate("wrong-size", "after %s, which failed, dimension %u has %zu values, neither %zu nor %zu", what, C::template dimensionAt<p>(), v.size(), b.size(), wanted[p].size());
        });
        model[s] = now;
        check(s, what);
    }
    void drop(int s) { slot[s].reset(); model[s].clear(); moved[s] = false; }

    void run() {
        uint64_t hist = sim::hashStr(typeid(C).name());
        size_t ops = 2 + c.pick(16, "operations"), changes = 0;
        for (size_t k = 0; k < ops; k++) {
            int s = (int)c.pick(3, "container"), o = (int)c.pick(3, "other container");
            MT& m = *meshes[c.pick(meshes.size(), "mesh")];
            int op = (int)c.pick(12, "operation");
            if (!slot[s] && op > 1 && op != 5 && op != 6) op = (int)c.pick(2, "make");
            if ((op >= 5 && op <= 8) && (!slot[o] || moved[o])) op = slot[s] ? 2 : 0;
            if (slot[s] && moved[s] && !(op == 0 || op == 1 || op == 5 || op == 6 || op == 7 || op == 11)) op = 0;
            c.step();
            hist = sim::mix64(hist, op * 16 + s * 4 + o);
            switch (op) {
            case 0: case 1: { // construct
                drop(s);
                int how = (int)c.pick(4, "constructor");
                std::vector<uint64_t> init = tags();
                long blocks = 0, live = 0;
                C* n = nullptr;
                bool failed;
                {
                    blocks = sim::Alloc::liveBlocks(); live = Fussy::live;
                    failed = attempt(true, how >= 2 ? "construction with initial values" : "construction", [&] { n = I::make(m, init, how); });
                }
                if (failed) {
                    if (sim::Alloc::liveBlocks() != blocks || Fussy::live != live) c.violate("leak", "a failed construction leaves %ld blocks and %ld values", sim::Alloc::liveBlocks() - blocks, Fussy::live - live);
                    break;
                }
                slot[s].reset(n);
                model[s] = sized(sizesOf(m), Model(), how >= 2 ? &init : nullptr);
                check(s, "construction");
                changes++;
                break;
            }
            case 2: case 3: { // allocate for a mesh
                bool with = c.chance(1, 2, "initial values");
                std::vector<uint64_t> init = tags();
                if (with && c.chance(1, 4, "initial values of its own")) {
                    std::vector<size_t> at;
                    bool empty = false;
                    for (auto& v : model[s]) if (v.empty()) empty = true;
                    if (empty) break;
                    if (I::tuple) for (unsigned p = 0; p < N; p++) {
                        size_t q = c.pick(N, "position");
                        if (!I::sameType(p, q)) q = p;
                        at.push_back(q);
                        at.push_back(c.pick(model[s][q].size(), "element"));
                        init[p] = model[s][q][at.back()];
                    }
                    else {
                        at.push_back(c.pick(N, "position"));
                        at.push_back(c.pick(model[s][at[0]].size(), "element"));
                        for (auto& x : init) x = model[s][at[0]][at[1]];
                    }
                    Model before = model[s], want = sized(sizesOf(m), model[s], &init);
                    if (attempt(true, "allocation with a value of its own", [&] { I::allocateOwn(*slot[s], m, at); })) settle(s, before, want, "the allocation with a value of its own");
                    else { model[s] = want; check(s, "allocation with a value of its own"); }
                    changes++;
                    break;
                }
                Model before = model[s], want = sized(sizesOf(m), model[s], with ? &init : nullptr);
                if (attempt(true, with ? "allocation for a mesh with initial values" : "allocation for a mesh", [&] { I::allocate(*slot[s], m, with ? &init : nullptr); })) settle(s, before, want, "the allocation for a mesh");
                else { model[s] = want; check(s, "allocation for a mesh"); }
                changes++;
                break;
            }
            case 4: { // allocate like a container of other dimensions
                bool with = c.chance(1, 2, "initial values");
                std::vector<uint64_t> init = tags();
                Model before = model[s], want = sized(sizesOf(m), model[s], with ? &init : nullptr);
                if (attempt(true, "allocation like another kind of container", [&] { I::likeOther(*slot[s], m, with ? &init : nullptr); })) settle(s, before, want, "the allocation like another kind of container");
                else { model[s] = want; check(s, "allocation like another kind of container"); }
                changes++;
                break;
            }
            case 5: { // copy
                if (s == o) { C& self = *slot[s]; *slot[s] = self; c.ev("self assignment"); check(s, "self assignment"); break; }
                C* n = nullptr;
                long blocks = sim::Alloc::liveBlocks(), live = Fussy::live;
                if (attempt(true, "copy", [&] { n = new C(*slot[o]); })) {
                    if (sim::Alloc::liveBlocks() != blocks || Fussy::live != live) c.violate("leak", "a failed copy leaves %ld blocks and %ld values", sim::Alloc::liveBlocks() - blocks, Fussy::live - live);
                } else { drop(s); slot[s].reset(n); model[s] = model[o]; }
                check(o, "copy"); check(s, "copy");
                changes++;
                break;
            }
            case 6: { // move
                if (s == o) break;
                C* n = new C(std::move(*slot[o]));
                drop(s); slot[s].reset(n); model[s] = model[o]; moved[o] = true;
                c.ev("move");
                check(s, "move");
                changes++;
                break;
            }
            case 7: { // copy assignment
                if (s == o) break;
                Model target = model[o];
                if (attempt(true, "assignment", [&] { *slot[s] = *slot[o]; })) {
                    check(o, "the failed assignment");
                    *slot[s] = *slot[o];   // again
                }
                model[s] = model[o]; moved[s] = false;
                check(s, "assignment"); check(o, "assignment");
                changes++;
                break;
            }
            case 8: { // move assignment or swap
                if (s == o) break;
                if (moved[s] || c.chance(1, 2, "move")) { *slot[s] = std::move(*slot[o]); model[s] = model[o]; moved[s] = false; moved[o] = true; c.ev("move assignment"); }
                else { std::swap(*slot[s], *slot[o]); std::swap(model[s], model[o]); c.ev("swap"); }
                check(s, "move assignment"); check(o, "swap");
                changes++;
                break;
            }
            case 9: { // write values by elements
                size_t n = 1 + c.pick(4, "values");
                for (size_t j = 0; j < n; j++) write(s, m);
                check(s, "writing values");
                changes++;
                break;
            }
            case 10: { // allocate like one of the same type
                if (!slot[o] || moved[o]) break;
                bool with = c.chance(1, 2, "initial values");
                std::vector<uint64_t> init = tags();
                Model before = model[s], want = sized(sizesOf(model[o]), model[s], with ? &init : nullptr);
                if (attempt(true, "allocation like a container", [&] { I::like(*slot[s], *slot[o], with ? &init : nullptr); })) settle(s, before, want, "the allocation like a container");
                else { model[s] = want; check(s, "allocation like a container"); }
                check(o, "allocation of another like it");
                changes++;
                break;
            }
            default: drop(s); c.ev("destroy"); break;
            }
            for (int i = 0; i < 3; i++) if (i != s && !(op == 8 && i == o)) check(i, "an operation on another container");
        }
        for (int i = 0; i < 3; i++) slot[i].reset();
        if (Fussy::live) c.violate("leak", "%ld values are alive after the end of all containers", Fussy::live);
        c.state(sim::mix64(changes, hist));
        if (changes >= 3) c.nontrivial(hist);
    }
    void write(int s, MT& m) {
        int p = (int)c.pick(N, "position");
        Each<C>::run(p, [&](auto P) {
            constexpr unsigned p = decltype(P)::value;
            constexpr unsigned d = C::template dimensionAt<p>();
            typedef typename I::template Value<p> T;
            auto& elements = m.template getElements<d>();
            if (elements.empty()) return;
            size_t i = c.pick(elements.size(), "element");
            size_t have = model[s][p].size();
            int how = (int)c.pick(5, "access");
            C& k = *slot[s];
            const C& ck = k;
            if (i >= have) { // an element the container has no value for
                bool out = false;
                try { k.at(elements[i]); } catch (const std::out_of_range&) { out = true; }
                bool out2 = false;
                try { ck.at(elements[i]); } catch (const std::out_of_range&) { out2 = true; }
                if (!out || !out2) c.violate("no-range-check", "the checked access to element %zu of %zu did not throw", i, have);
                c.probe("checked access out of range");
                return;
            }
            uint64_t t = next++;
            T v = Mk<T>::of(t);
            switch (how) {
            case 0: k[elements[i]] = v; break;
            case 1: k.at(elements[i]) = v; break;
            case 2: k[ElementIndex<d, Index>((Index)i)] = v; break;
            case 3: k.template getDataByDim<d>()[i] = v; break;
            default: k[std::integer_sequence<unsigned, p>()][i] = v; break;
            }
            model[s][p][i] = t;
            if (!eq(ck[elements[i]], t) || !eq(ck.at(elements[i]), t) || !eq(ck[ElementIndex<d, Index>((Index)i)], t) || !eq(ck.template getDataByPos<p>()[i], t))
                c.violate("wrong-value", "the value written for element %zu of dimension %u is not read back", i, d);
        });
    }
};

template <typename MT> std::vector<std::unique_ptr<MT>> loadMeshes(Ctx& c) {
    std::vector<std::unique_ptr<MT>> r;
    size_t n = 2 + c.pick(2, "meshes");
    GenOpt o;
    o.big3 = 12; o.big2 = 30; o.small3 = 4; o.maxPoly = 3;
    for (size_t i = 0; i < n; i++) {
        r.emplace_back(new MT());
        if (c.chance(1, 8, "empty mesh")) continue;
        int fmt = MT::meshDimension() == 2 ? VTK2 : c.chance(1, 3, "polyhedra") ? FPMA3 : VTK3;
        Case k = genCase(c, fmt, o);
        Types<MT::meshDimension()> t;
        std::istringstream is(k.text);
        Load<MT::meshDimension()>::stream(fmt, is, *r.back(), t);
    }
    return r;
}
template <typename C, typename MT> void go(Ctx& c) {
    auto m = loadMeshes<MT>(c);
    sim::Alloc::fillWord(0x4142434400000000ULL + c.pick(1u << 31, "fresh memory"));
    Runner<C, MT>(c, m).run();
}
void simRun(Ctx& c) {
    model::largeMeshes() = false; // an index type of 16 bits is among them
    typedef UnstructuredMesh<3, size_t, double> M3;
    typedef UnstructuredMesh<3, unsigned int, double, 6> M3b;
    typedef UnstructuredMesh<2, size_t, double> M2;
    typedef UnstructuredMesh<2, unsigned short, float> M2b;
    switch (c.pick(9, "type")) {
    case 0: go<MeshDataContainer<double, 3>, M3>(c); break;
    case 1: go<MeshDataContainer<std::string, 3, 0, 2>, M3>(c); break;
    case 2: go<MeshDataContainer<std::tuple<int, std::string, std::vector<int>>, 0, 3, 2>, M3>(c); break;
    case 3: go<MeshDataContainer<Fussy, 1, 3>, M3b>(c); break;
    case 4: go<MeshDataContainer<std::vector<int>, 0, 1, 2, 3>, M3b>(c); break;
    case 5: go<MeshDataContainer<std::tuple<Fussy, double>, 1, 2>, M2>(c); break;
    case 6: go<MeshDataContainer<Vector<3, double>, 2, 0>, M2b>(c); break;
    case 8: go<MeshDataContainer<std::tuple<std::string, int, std::string>, 3, 1, 2>, M3>(c); break;
    case 7: go<MeshDataContainer<std::tuple<unsigned char, std::string>, 2, 1>, M2b>(c); break;
    }
}
