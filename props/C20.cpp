// C20: what a user callback throws reaches the caller; the calls made are the first ones of the full sequence.
#include "incidence.h"
#include <functional>
#include <cstring>
#include <typeinfo>
#include <new>
#include <ios>
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C20", "fault_enumeration",
    "a run loads a generated mesh and iterates over it by apply (all elements or from one element, drawn dimensions) with a function which at a drawn call throws (an exception, a foreign type), iterates over the mesh again inside, or just counts; the full sequence of calls is compared with the incidence of the elements, the interrupted one with its beginning; non-trivial: a call threw after the first one; distinct by mesh shape, dimensions, start and throwing call",
    "MeshApply, UnstructuredMesh::apply",
    "the user function (throws at the drawn call)",
    "one call of the user function",
    "",
    50000, 1500000};

struct Foreign { size_t at; };   // not derived from std::exception
struct UserError : std::runtime_error { size_t at; explicit UserError(size_t k) : std::runtime_error("user"), at(k) {} };
typedef std::vector<std::pair<size_t, size_t>> Calls;

template <typename MT, typename I> struct Functor { // copied by the library: state by reference
    Calls& calls;
    size_t throwAt;
    int kind;
    const MT* nested;
    void operator()(I a, I b) const {
        calls.push_back({(size_t)a, (size_t)b});
        if (nested) { Calls t; nested->template apply<1, 0>([&t](I x, I y) { t.push_back({(size_t)x, (size_t)y}); }); }
        if (calls.size() == throwAt) {
            if (kind == 0) throw UserError(throwAt);
            if (kind == 1) throw Foreign{throwAt};
            if (kind == 2) throw static_cast<int>(throwAt);
            switch (kind) { // whatever the user function may let through
            case 3: throw std::out_of_range("user");
            case 4: throw std::bad_alloc();
            case 5: throw std::logic_error("user");
            case 6: throw std::invalid_argument("user");
            case 7: throw std::overflow_error("user");
            case 8: throw std::bad_function_call();
            case 9: throw std::ios_base::failure("user");
            case 10: throw std::exception();
            case 11: throw "user";
            }
        }
    }
};
template <typename MT, typename I> struct World {
    static constexpr unsigned D = MT::meshDimension();
    Ctx& c;
    MT mesh;
    std::unique_ptr<incidence::Inc<D>> inc;
    uint64_t sig = 0;
    std::string before;
    explicit World(Ctx& cc) : c(cc) {}

    template <unsigned A, unsigned B> struct One {
        template <bool Down> static typename std::enable_if<Down>::type call(const MT& m, I i, const Functor<MT, I>& f, int how) {
            if (how == 0) m.template apply<A, B>(i, f);
            else if (how == 1) { std::function<void(I, I)> g = f; m.template apply<A, B>(i, g); }
            else MeshApply<A, B>::apply(i, m, [&f](I a, I b) { f(a, b); });
        }
        template <bool Down> static typename std::enable_if<!Down>::type call(const MT&, I, const Functor<MT, I>&, int) {}
    };
    template <unsigned A, unsigned B> Calls full(bool single, I start, size_t throwAt, int kind, int how, bool nest, bool& threw) {
        Calls calls;
        Functor<MT, I> f{calls, throwAt, kind, nest ? &mesh : nullptr};
        threw = false;
        try {
            if (single) One<A, B>::template call<(A >= B)>(mesh, start, f, how);
            else if (how == 0) mesh.template apply<A, B>(f);
            else if (how == 1) { std::function<void(I, I)> g = f; mesh.template apply<A, B>(g); }
            else MeshApply<A, B>::apply(mesh, [&f](I a, I b) { f(a, b); });
        }
        catch (const UserError& e) { threw = true; if (kind != 0 || e.at != throwAt) c.violate("changed-exception", "the exception arrived changed"); }
        catch (const Foreign& e) { threw = true; if (kind != 1 || e.at != throwAt) c.violate("changed-exception", "the foreign exception arrived changed"); }
        catch (int e) { threw = true; if (kind != 2 || (size_t)e != throwAt) c.violate("changed-exception", "the int thrown arrived changed"); }
        catch (const char* t) { threw = true; if (kind != 11 || strcmp(t, "user") != 0) c.violate("changed-exception", "the text thrown arrived changed"); }
        catch (const std::exception& e) {
            threw = true;
            static const std::type_info* const types[] = {&typeid(std::out_of_range), &typeid(std::bad_alloc), &typeid(std::logic_error), &typeid(std::invalid_argument), &typeid(std::overflow_error), &typeid(std::bad_function_call), &typeid(std::ios_base::failure), &typeid(std::exception)};
            if (kind < 3 || kind > 10 || typeid(e) != *types[kind - 3]) c.violate("changed-exception", "the exception of the user function arrived as %s", typeid(e).name());
        }
        catch (...) { c.violate("changed-exception", "the exception of the user function arrived as another one"); }
        c.step(calls.size());
        return calls;
    }
    template <unsigned A, unsigned B> void ask() {
        bool single = A >= B && c.chance(1, 2, "single element");
        size_t start = single ? c.pick(inc->count[A], "start") : 0;
        if (single && inc->count[A] == 0) return;
        bool t;
        Calls all = full<A, B>(single, (I)start, 0, 0, 0, false, t);
        std::set<std::pair<size_t, size_t>> got(all.begin(), all.end()), want;
        for (size_t i = 0; i < inc->count[A]; i++) if (!single || i == start) for (size_t j : inc->rel[A][B][i]) want.insert({i, j});
        if (got != want) {
            for (auto& p : want) if (!got.count(p)) c.violate("missing-call", "apply from dimension %u to %u does not visit %zu from %zu", A, B, p.second, p.first);
            for (auto& p : got) if (!want.count(p)) c.violate("extra-call", "apply from dimension %u to %u visits %zu from %zu although they are not connected", A, B, p.second, p.first);
        }
        size_t tries = 1 + c.pick(3, "attempts");
        for (size_t k = 0; k < tries; k++) {
            size_t at = c.pick(all.size() + 2, "throwing call"); // 0 and size+1: none
            int kind = (int)c.pick(12, "kind"), how = (int)c.pick(3, "way of calling");
            bool nest = all.size() < 200 && c.chance(1, 5, "nested iteration");
            bool threw;
            Calls part = full<A, B>(single, (I)start, at, kind, how, nest, threw);
            bool should = at >= 1 && at <= all.size();
            if (threw != should) c.violate(should ? "lost-exception" : "spurious-exception", "apply from dimension %u to %u: the exception thrown at call %zu of %zu %s", A, B, at, all.size(), should ? "did not reach the caller" : "came from nowhere");
            Calls exp(all.begin(), all.begin() + (should ? at : all.size()));
            if (part != exp) c.violate("wrong-sequence", "apply from dimension %u to %u interrupted at call %zu made %zu calls which are not the first ones of the full sequence", A, B, at, part.size());
            if (should) { c.probe(kind != 1 && kind != 2 && kind != 11 ? "throws an exception" : "throws a foreign type"); if (nest) c.probe("nested iteration"); }
            if (should && at > 1) sig = sim::mix64(sig, ((A * 10 + B) * 100000 + at) * 7 + single * 3 + start * 1000003);
            c.ev("apply %u-%u%s: %zu calls, throws at %zu", A, B, single ? " from one element" : "", all.size(), at);
        }
    }
    template <unsigned A> void ask1() {
        switch (c.pick(D + 1, "target dimension")) {
        case 0: ask<A, 0>(); break;
        case 1: ask<A, 1>(); break;
        case 2: ask<A, 2>(); break;
        case 3: ask<A, D>(); break;
        }
    }
    void run(std::vector<int> fmts) {
        GenOpt o;
        o.small3 = 5; o.big3 = 30; o.small2 = 8; o.big2 = 60;
        o.template forMesh<MT>();
        Case k = genCase(c, c.of(fmts, "format"), o);
        std::istringstream is(k.text);
        Types<D> types;
        Load<D>::stream(k.fmt, is, mesh, types);
        c.ev("%s", describe(k).c_str());
        cases::modify(c, mesh);
        inc.reset(new incidence::Inc<D>(mesh));
        before = dump(mesh);
        size_t n = 1 + c.pick(4, "questions");
        for (size_t i = 0; i < n; i++) {
            switch (c.pick(D + 1, "start dimension")) {
            case 0: ask1<0>(); break;
            case 1: ask1<1>(); break;
            case 2: ask1<2>(); break;
            case 3: ask1<D>(); break;
            }
        }
        if (dump(mesh) != before) c.violate("mesh-changed", "iterating changed the mesh");
        c.state(sig);
        if (sig) c.nontrivial(sim::mix64(sig, signature(k)));
    }
};
void simRun(Ctx& c) {
    switch (c.pick(4, "mesh kind")) {
    case 0: { World<UnstructuredMesh<3, size_t, double>, size_t> w(c); w.run({VTK3, FPMA3}); break; }
    case 1: { World<UnstructuredMesh<2, size_t, double>, size_t> w(c); w.run({VTK2}); break; }
    case 2: { World<UnstructuredMesh<3, unsigned int, float, 8>, unsigned int> w(c); w.run({VTK3}); break; }
    case 3: { model::largeMeshes() = false; World<UnstructuredMesh<2, unsigned short, float>, unsigned short> w(c); w.run({VTK2}); break; }
    }
}
