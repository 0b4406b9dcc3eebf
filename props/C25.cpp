// C25: traits read and write exactly the named member.
// BUILD: alloc
#include "sim.h"
#include "alloc.h"
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/TraitsBind/TraitsBind.h>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
using sim::Ctx;

const sim::HarnessInfo simHarness = {
    "C25", "exploration",
    "a run performs a history of operations on three objects of a structure with seven members through one of nine declarations of traits (macros, custom names, templates, traits made at run time from lambdas, functors, std::function and std::bind, copied and moved traits, traits bound to an object, nested traits): get, set, direct access, apply of functors of three forms, paths of indices; the access functions of the structure record their calls and throw at a drawn call, memory runs out at a drawn allocation; after every operation all members of all objects and the calls made must be those of the model; non-trivial: at least 3 operations that set a member; distinct by history",
    "Traits, MemberAccess, GetAccess, SetAccess, FunctionTraits, makeTraits, DefaultTraits and the macros, get<...>, TraitsBinder, SelectTraits",
    "access functions of the user and operator new/delete (simulated)",
    "one operation",
    "setting through a pointer is asked only of members accessed by member pointers and member functions, as the others do not compile",
    40000, 1500000};

struct CallFails : std::runtime_error { CallFails() : std::runtime_error("access function fails") {} };
struct Seam {
    static std::vector<std::pair<const char*, const void*>> log;
    static long left;
    static void call(const char* name, const void* obj) {
        log.emplace_back(name, obj);
        if (left > 0 && --left == 0) throw CallFails();
    }
};
std::vector<std::pair<const char*, const void*>> Seam::log;
long Seam::left = 0;

struct Inner {
    int x = 0;
    std::string y;
    bool operator==(const Inner& o) const { return x == o.x && y == o.y; }
};
MAKE_NAMED_ATTRIBUTE_TRAIT(Inner, "the text", y, "the number", x);

struct S {
    int a = 0;
    double b = 0;
    std::string c;
    bool d = false;
    std::vector<int> e;
    std::string f;
    Inner g;
    int readA() { Seam::call("readA", this); return a; }
    void writeA(int v) { Seam::call("writeA", this); a = v; }
    double getB() const { Seam::call("getB", this); return b; }
    void setB(const double& v) { Seam::call("setB", this); b = v; }
    const std::string& getC() const { Seam::call("getC", this); return c; }
    std::string& refC() { Seam::call("refC", this); return c; }
    std::string getF(int k) const { Seam::call(k == 7 ? "getF" : k == 8 ? "second getF" : "getF with another bound value", this); return f; }
    void setF(const std::string& v, int k) { Seam::call(k == 9 ? "setF" : k == 10 ? "second setF" : "setF with another bound value", this); f = v; }
    Inner getG() const { Seam::call("getG", this); return g; }
    bool operator==(const S& o) const { return a == o.a && b == o.b && c == o.c && d == o.d && e == o.e && f == o.f && g == o.g; }
    void setG(Inner v) { Seam::call("setG", this); g = std::move(v); }
};
static bool getD(const S& s) { Seam::call("getD", &s); return s.d; }
static void setD(S& s, bool v) { Seam::call("setD", &s); s.d = v; }
static const std::vector<int>& getE(const S& s) { Seam::call("getE", &s); return s.e; }
static std::vector<int>& refE(S& s) { Seam::call("refE", &s); return s.e; }
struct GetterOfA { int bias; int operator()(const S& s) const { Seam::call(bias == 3 ? "functor getter of a" : bias == 4 ? "second functor getter of a" : "damaged functor", &s); return s.a; } };
struct SetterOfA { std::string tag; void operator()(S& s, const int& v) const { Seam::call(tag == "setter with a long name that is allocated" ? "functor setter of a" : tag == "another setter with a long name" ? "second functor setter of a" : "damaged functor", &s); s.a = v; } };

MAKE_ATTRIBUTE_TRAIT(S, c, a, g, e, b, f, d);
MAKE_CUSTOM_TRAIT_IO(S,
    "b by member functions", std::make_pair(&S::getB, &S::setB),
    "c by reference", std::make_pair(&S::getC, &S::refC),
    "d by functions", std::make_pair(&getD, &setD),
    "e by reference function", std::make_pair(&getE, &refE),
    "f", &S::f,
    "a not const", std::make_pair(&S::readA, &S::writeA),
    "g by value", std::make_pair(&S::getG, &S::setG));
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(S, "inner", g, "number", a, "text", f, "real", b);

/// The same structure with one type as a parameter.
template <typename T> struct P { S s; T t = T(); S& base() { return s; } };
struct One { int only = 0; };

/// Values by tag; 0 is the initial one.
template <typename T> struct Mk;
template <> struct Mk<int> { static int of(uint64_t t) { return (int)t; } };
template <> struct Mk<double> { static double of(uint64_t t) { return t ? (double)t + 0.25 : 0; } };
template <> struct Mk<bool> { static bool of(uint64_t t) { return t & 1; } };
template <> struct Mk<std::string> { static std::string of(uint64_t t) { return t ? (t % 3 ? "value number " + std::to_string(t) + " of the member" : std::to_string(t)) : ""; } };
template <> struct Mk<std::vector<int>> { static std::vector<int> of(uint64_t t) { return t ? std::vector<int>(1 + t % 7, (int)t) : std::vector<int>(); } };
template <> struct Mk<Inner> { static Inner of(uint64_t t) { Inner i; if (t) { i.x = (int)t; i.y = Mk<std::string>::of(t + 1); } return i; } };
template <typename T> static bool is(const T& v, uint64_t t) { return v == Mk<T>::of(t); }

/// What a declaration says about a member: its name, which member of S it is, the functions it is accessed by.
struct Decl { const char* name; int member; const char* get; const char* set; };
static const Decl declDefault[] = {{"c", 2, "", ""}, {"a", 0, "", ""}, {"g", 6, "", ""}, {"e", 4, "", ""}, {"b", 1, "", ""}, {"f", 5, "", ""}, {"d", 3, "", ""}};
static const Decl declIO[] = {{"b by member functions", 1, "getB", "setB"}, {"c by reference", 2, "getC", "refC"}, {"d by functions", 3, "getD", "setD"},
    {"e by reference function", 4, "getE", "refE"}, {"f", 5, "", ""}, {"a not const", 0, "readA", "writeA"}, {"g by value", 6, "getG", "setG"}};
static const Decl declArith[] = {{"inner", 6, "", ""}, {"number", 0, "", ""}, {"text", 5, "", ""}, {"real", 1, "", ""}};
static const Decl declMade[] = {{"lambda", 0, "lambda getter of a", "lambda setter of a"}, {"bound", 5, "getF", "setF"}, {"pointer", 2, "", ""},
    {"std::function", 4, "function getter of e", "function setter of e"}, {"functor", 0, "functor getter of a", "functor setter of a"}, {"mixed", 3, "lambda getter of d", "setD"}};
static const Decl declMade2[] = {{"lambda", 0, "second lambda getter of a", "second lambda setter of a"}, {"bound", 5, "second getF", "second setF"}, {"pointer", 5, "", ""},
    {"std::function", 4, "second function getter of e", "second function setter of e"}, {"functor", 0, "second functor getter of a", "second functor setter of a"}, {"mixed", 3, "second lambda getter of d", "setD"}};
static const Decl declTwo[] = {{"same", 1, "", ""}, {"same too", 1, "getB", "setB"}};
static const Decl declOne[] = {{"g", 6, "getG", "setG"}};
static const Decl declRef[] = {{"lambda reference", 2, "lambda getter of c", "lambda reference of c"}, {"reference by std::function", 4, "getE", "function reference of e"}, {"pointer last", 3, "", ""}};

template <typename A> struct CanSetPtr : std::false_type {};
template <typename C, typename T> struct CanSetPtr<T C::*> : std::true_type {};
template <typename G, typename R> struct CanSetPtr<std::pair<G, R>> : std::integral_constant<bool, std::is_member_pointer<R>::value> {};

struct World {
    Ctx& c;
    std::vector<S> obj;
    std::vector<std::vector<uint64_t>> model;
    uint64_t next = 0, hist = 0;
    int sets = 0;
    explicit World(Ctx& x) : c(x), obj(3), model(3, std::vector<uint64_t>(7, 0)) { Seam::log.reserve(64); }

    void check(const char* what) {
        for (size_t i = 0; i < 3; i++) {
            const S& s = obj[i];
            const auto& m = model[i];
            bool ok[7] = {is(s.a, m[0]), is(s.b, m[1]), is(s.c, m[2]), is(s.d, m[3]), is(s.e, m[4]), is(s.f, m[5]), is(s.g, m[6])};
            for (int k = 0; k < 7; k++) if (!ok[k]) c.violate("wrong-member", "after %s the member %c of object %zu is not what was stored there", what, 'a' + k, i);
        }
    }
    void calls(const std::vector<std::pair<const char*, size_t>>& want, const char* what) {
        std::string w, g;
        for (auto& x : want) if (*x.first) w += std::string(x.first) + "@" + std::to_string(x.second) + " ";
        for (auto& x : Seam::log) {
            size_t i = 9;
            for (size_t j = 0; j < 3; j++) if (x.second == &obj[j]) i = j;
            g += std::string(x.first) + "@" + (i == 9 ? "a copy" : std::to_string(i)) + " ";
        }
        if (w != g) c.violate("wrong-calls", "%s called the access functions %s instead of %s", what, g.c_str(), w.c_str());
    }
    /// Runs one operation with a drawn fault; returns 0 done, 1 an access function threw, 2 out of memory.
    template <typename F> int guarded(const char* what, F f, size_t maxCalls = 1) {
        Seam::log.clear();
        Seam::left = 0;
        bool byCall = c.chance(1, 5, "access function fails"), byAlloc = !byCall && c.chance(1, 6, "out of memory");
        if (byCall) Seam::left = 1 + (long)c.pick(maxCalls, "failing call");
        int r = 0;
        long blocks = sim::Alloc::liveBlocks();
        (void)blocks;
        if (byAlloc) sim::Alloc::arm(1 + c.pick(3, "failing allocation"), c.chance(1, 3, "persistent"));
        try { f(); }
        catch (const CallFails&) { r = 1; }
        catch (const std::bad_alloc&) { r = 2; }
        catch (...) { r = 3; }
        bool fired = byAlloc && sim::Alloc::fired();
        sim::Alloc::disarm();
        bool threw = byCall && Seam::left == 0;
        Seam::left = 0;
        if (r == 3) c.violate("other-exception", "%s threw another exception than the access function", what);
        if (threw && r != 1) c.violate("lost-exception", "the exception of an access function did not come out of %s", what);
        if (fired && r != 2) c.violate("lost-exception", "%s hid that memory ran out", what);
        if (r == 1 && !threw) c.violate("other-exception", "%s threw out of nothing", what);
        if (r == 2 && !fired) c.violate("other-exception", "%s ran out of memory", what);
        if (r == 1) c.probe("access function throws");
        if (r == 2) c.probe("memory runs out");
        return r;
    }
};

template <typename TT> struct Runner;
template <typename... Refs> struct Runner<Traits<S, Refs...>> {
    typedef Traits<S, Refs...> TT;
    World& w;
    Ctx& c;
    const TT& t;
    const Decl* d;
    Runner(World& x, const TT& tt, const Decl* decl) : w(x), c(x.c), t(tt), d(decl) {}
    template <unsigned I> using Ref = typename TT::template memRefType<I>;
    template <unsigned I> using Val = typename TT::template type<I>;
    template <unsigned I> using Direct = std::integral_constant<bool, IsDirectAccess<Ref<I>>::value>;
    template <unsigned I> using ConstGet = std::integral_constant<bool, HasConstGetAccess<Ref<I>>::value>;
    template <unsigned I> using PtrSet = CanSetPtr<typename TT::template refType<I>>;

    template <unsigned I> Val<I> getConst(size_t o, bool ptr, std::true_type) { const S& s = w.obj[o]; return ptr ? t.template getValue<I>(&s) : t.template getValue<I>(s); }
    template <unsigned I> Val<I> getConst(size_t o, bool, std::false_type) { return t.template getValue<I>(w.obj[o]); }
    template <unsigned I> void setPtr(size_t o, const Val<I>& v, bool ptr, std::true_type) { if (ptr) t.template setValue<I>(&w.obj[o], v); else t.template setValue<I>(w.obj[o], v); }
    template <unsigned I> void setPtr(size_t o, const Val<I>& v, bool, std::false_type) { t.template setValue<I>(w.obj[o], v); }
    template <unsigned I> bool attr(size_t o, bool ptr, const Val<I>* v, Val<I>*& where, std::true_type) {
        static_assert(std::is_same<decltype(t.template getAttr<I>(w.obj[o])), Val<I>&>::value, "reference to the member");
        where = &t.template getAttr<I>(w.obj[o]);
        if (v) *where = *v;
        (void)ptr;
        return true;
    }
    template <unsigned I> bool attr(size_t, bool, const Val<I>*, Val<I>*&, std::false_type) { return false; }

    template <unsigned I> void get() {
        size_t o = c.pick(3, "object");
        int how = (int)c.pick(5, "how");
        c.ev("get %u (%s) of object %zu, form %d", I, d[I].name, o, how);
        Val<I> v{};
        int r = w.guarded("getting", [&] {
            switch (how) {
            case 0: v = t.template getValue<I>(w.obj[o]); break;
            case 1: v = t.template getValue<I>(&w.obj[o]); break;
            case 2: v = getConst<I>(o, false, ConstGet<I>()); break;
            case 3: v = getConst<I>(o, true, ConstGet<I>()); break;
            case 4: v = t.template getReference<I>().getValue(w.obj[o]); break;
            }
        });
        if (!r) {
            if (!is(v, w.model[o][d[I].member])) c.violate("wrong-value", "getting member %u (%s) of object %zu gives another value than the member has", I, d[I].name, o);
        }
        if (r != 2) w.calls({{d[I].get, o}}, "getting a member");
    }
    template <unsigned I> void set() {
        size_t o = c.pick(3, "object");
        int how = (int)c.pick(4, "how");
        uint64_t& m = w.model[o][d[I].member];
        uint64_t tag = c.chance(1, 6, "the same value") ? m : ++w.next;
        c.ev("set %u (%s) of object %zu, form %d", I, d[I].name, o, how);
        Val<I> v = Mk<Val<I>>::of(tag);
        bool direct = false;
        int r = w.guarded("setting", [&] {
            Val<I>* where = nullptr;
            switch (how) {
            case 0: t.template setValue<I>(w.obj[o], v); break;
            case 1: setPtr<I>(o, v, true, PtrSet<I>()); break;
            case 2: t.template getReference<I>().setValue(w.obj[o], v); break;
            case 3:
                direct = attr<I>(o, false, &v, where, Direct<I>());
                if (!direct) t.template setValue<I>(w.obj[o], v);
                break;
            }
        });
        after<I>(r, o, tag, m);
        if (r != 2) w.calls({{d[I].set, o}}, "setting a member");
        w.sets++;
    }
    /// A member whose assignment ran out of memory may have the old or the new value.
    template <unsigned I> void after(int r, size_t o, uint64_t tag, uint64_t& m) {
        if (!r) { m = tag; return; }
        if (r == 2) {
            static const std::vector<int>* dummy = nullptr; (void)dummy;
            reset(o, d[I].member, m);
        }
    }
    /// A structure assigned by halves (Inner) is set anew.
    void reset(size_t o, int member, uint64_t m) {
        if (member == 6) w.obj[o].g = Mk<Inner>::of(m);
    }
    template <unsigned I> void look() {
        size_t o = c.pick(3, "object");
        if (!Direct<I>::value) { get<I>(); return; }
        c.ev("address of %u of object %zu", I, o);
        Val<I>* where = nullptr;
        int r = w.guarded("direct access", [&] { attr<I>(o, false, nullptr, where, Direct<I>()); });
        const void* at[] = {&w.obj[o].a, &w.obj[o].b, &w.obj[o].c, &w.obj[o].d, &w.obj[o].e, &w.obj[o].f, &w.obj[o].g};
        if (!r && where != at[d[I].member]) c.violate("wrong-member", "direct access to member %u (%s) of object %zu leads elsewhere", I, d[I].name, o);
        if (r != 2) w.calls({{d[I].set, o}}, "direct access");
    }

    /// What an applied functor does: collects names, gets or sets.
    struct Visit {
        Runner& r;
        size_t o;
        int mode;            // 0 names, 1 get, 2 set
        unsigned at = 0;
        std::vector<std::string> names;
        std::vector<std::pair<const char*, size_t>> calls;
        uint64_t first;
        bool bad = false;
        std::string why;
        template <typename A> void operator()(unsigned i, const A& ref, const std::string& name) {
            typedef typename A::typeValue V;
            World& w = r.w;
            if (i != at) { bad = true; why = "indices out of order"; }
            if (at >= TT::size()) { bad = true; why = "too many members"; return; }
            if (name != r.d[at].name) { bad = true; why = "another name than the one declared"; }
            at++;
            int m = r.d[i].member;
            if (mode == 1) {
                calls.emplace_back(r.d[i].get, o);
                V v = ref.getValue(w.obj[o]);
                if (!is(v, w.model[o][m])) { bad = true; why = "another value than the member has"; }
            }
            if (mode == 2) {
                calls.emplace_back(r.d[i].set, o);
                V v = Mk<V>::of(first + i);
                try { ref.setValue(w.obj[o], v); } catch (const std::bad_alloc&) { r.reset(o, m, w.model[o][m]); throw; }
                w.model[o][m] = first + i;
            }
        }
    };
    static Visit*& current() { static Visit* v = nullptr; return v; }
    template <typename C, typename V> struct Form {
        template <typename A> void operator()(unsigned i, const A& ref, const std::string& n) const { static_assert(std::is_same<C, S>::value && std::is_same<V, typename A::typeValue>::value, "the type of the member"); (*current())(i, ref, n); }
    };
    void apply() {
        int form = (int)c.pick(3, "form"), mode = (int)c.pick(3, "what the functor does");
        Visit v{*this, c.pick(3, "object"), mode};
        v.names.reserve(8);
        v.calls.reserve(8);
        v.first = w.next + 1;
        if (mode == 2) { w.next += TT::size(); w.sets++; }
        current() = &v;
        c.ev("apply form %d, %s, object %zu", form, mode == 0 ? "names" : mode == 1 ? "get" : "set", v.o);
        int r = w.guarded("apply", [&] {
            switch (form) {
            case 0: t.apply([&v](unsigned i, const auto& ref, const std::string& n) { v(i, ref, n); }); break;
            case 1: t.apply([&v](const auto& ref, const std::string& n) { v(v.at, ref, n); }); break;
            case 2: t.template apply<Form>(); break;
            }
        }, 6);
        if (v.bad) c.violate("wrong-apply", "apply: %s", v.why.c_str());
        if (!r && v.at != TT::size()) c.violate("wrong-apply", "apply visited %u members of %u", v.at, TT::size());
        if (r != 2) w.calls(v.calls, "apply");
    }
    template <unsigned I> void name() {
        if (std::string(t.template getName<I>()) != d[I].name) c.violate("wrong-name", "member %u is called %s instead of %s", I, t.template getName<I>(), d[I].name);
    }
    template <unsigned I> void op(int what) {
        switch (what) {
        case 0: get<I>(); break;
        case 1: set<I>(); break;
        case 2: look<I>(); break;
        case 3: name<I>(); break;
        }
    }
    template <size_t... I> void dispatch(unsigned i, int what, std::index_sequence<I...>) {
        int dummy[] = {(i == I ? (op<I>(what), 0) : 0)...};
        (void)dummy;
    }
    void run() {
        w.c.step();
        w.hist = sim::mix64(w.hist, TT::size());
        int what = (int)c.pick(6, "operation");
        w.hist = sim::mix64(w.hist, what);
        if (what == 4) { apply(); w.check("apply"); return; }
        if (what == 5) what = 1;
        unsigned i = (unsigned)c.pick(TT::size(), "member");
        w.hist = sim::mix64(w.hist, i);
        dispatch(i, what, std::make_index_sequence<sizeof...(Refs)>());
        w.check(what == 0 ? "getting" : what == 1 ? "setting" : what == 2 ? "direct access" : "asking for a name");
    }
};
template <typename TT> static void use(World& w, const TT& t, const Decl* d) { Runner<TT>(w, t, d).run(); }
template <typename TT> static void named(Ctx& c, const TT& t, const char* first, const char* what) {
    if (std::string(t.template getName<0>()) != first) c.violate("wrong-traits", "%s gives the traits with %s first instead of %s", what, t.template getName<0>(), first);
}

/// Two traits of the same type which differ in what their functions hold and in a member.
static auto made(bool second) {
    static const std::string tag1 = "setter with a long name that is allocated", tag2 = "another setter with a long name";
    auto lget = [second](const S& s) { Seam::call(second ? "second lambda getter of a" : "lambda getter of a", &s); return s.a; };
    auto lset = [second](S& s, const int& v) { Seam::call(second ? "second lambda setter of a" : "lambda setter of a", &s); s.a = v; };
    std::function<std::vector<int>(const S&)> fget = [second](const S& s) { Seam::call(second ? "second function getter of e" : "function getter of e", &s); return s.e; };
    std::function<void(S&, const std::vector<int>&)> fset = [second](S& s, const std::vector<int>& v) { Seam::call(second ? "second function setter of e" : "function setter of e", &s); s.e = v; };
    auto dget = [second](const S& s) { Seam::call(second ? "second lambda getter of d" : "lambda getter of d", &s); return s.d; };
    return makeTraits<S>("lambda", std::make_pair(lget, lset),
                         "bound", std::make_pair(std::bind(&S::getF, std::placeholders::_1, second ? 8 : 7), std::bind(&S::setF, std::placeholders::_1, std::placeholders::_2, second ? 10 : 9)),
                         "pointer", second ? &S::f : &S::c,
                         "std::function", std::make_pair(fget, fset),
                         "functor", std::make_pair(GetterOfA{second ? 4 : 3}, SetterOfA{second ? tag2 : tag1}),
                         "mixed", std::make_pair(dget, &setD));
}
static auto madeRef() {
    auto get = [](const S& s) -> const std::string& { Seam::call("lambda getter of c", &s); return s.c; };
    auto ref = [](S& s) -> std::string& { Seam::call("lambda reference of c", &s); return s.c; };
    std::function<std::vector<int>&(S&)> fref = [](S& s) -> std::vector<int>& { Seam::call("function reference of e", &s); return s.e; };
    return makeTraits<S>("lambda reference", std::make_pair(get, ref), "reference by std::function", std::make_pair(&getE, fref), "pointer last", &S::d);
}

/// A path of indices leads through the traits for arithmetic.
static void paths(World& w) {
    Ctx& c = w.c;
    size_t o = c.pick(3, "object");
    S& s = w.obj[o];
    const void* got = nullptr;
    const void* want = nullptr;
    int k = (int)c.pick(8, "path");
    c.ev("path %d of object %zu", k, o);
    switch (k) {
    case 0: got = &get<0>(s); want = &s.g; break;
    case 1: got = &get<1>(s); want = &s.a; break;
    case 2: got = &get<2>(&s); want = &s.f; break;
    case 3: got = &get<3>(s); want = &s.b; break;
    case 4: got = &get<0, 0>(s); want = &s.g.y; break;
    case 5: got = &get<0, 1>(s); want = &s.g.x; break;
    case 6: got = &get<0, 0>(&s); want = &s.g.y; break;
    case 7: got = &get<1>(s.g); want = &s.g.x; break;
    }
    if (got != want) c.violate("wrong-member", "the path %d leads to another member", k);
    w.check("following a path");
}

MAKE_CUSTOM_TEMPLATE_TRAIT((P<T>), (typename T), "t", &P<T>::t, "base", std::make_pair(static_cast<S& (P<T>::*)()>(&P<T>::base), static_cast<S& (P<T>::*)()>(&P<T>::base)));
MAKE_ATTRIBUTE_TRAIT(One, only);
static void templates(World& w) {
    Ctx& c = w.c;
    P<int> p;
    P<std::string> q;
    auto tp = DefaultTraits<P<int>>::getTraits();
    auto tq = DefaultIOTraits<P<std::string>>::getTraits();
    tp.setValue<0>(p, 5);
    tq.setValue<0>(&q, "text");
    S s;
    s.a = 77; s.f = "other";
    tp.setValue<1>(p, s);
    tq.getAttr<1>(q).b = 2.5;
    if (p.t != 5 || p.s.a != 77 || p.s.f != "other" || q.t != "text" || q.s.b != 2.5 || q.s.a != 0) c.violate("wrong-member", "traits of a template set another member");
    if (tp.getValue<0>(p) != 5 || tq.getValue<0>(&q) != "text" || tp.getValue<1>(p).a != 77) c.violate("wrong-value", "traits of a template get another value");
    if (std::string(tp.getName<1>()) != "base" || DefaultTraits<P<int>>::size() != 2) c.violate("wrong-name", "traits of a template have other names");
    One one;
    DefaultArithmeticTraits<One>::getTraits().setValue<0>(one, 3);
    if (one.only != 3 || DefaultTraits<One>::size() != 1 || get<0>(one) != 3) c.violate("wrong-member", "traits of one member");
    unsigned n = 0;
    DefaultTraits<One>::getTraits().apply([&](unsigned i, const auto& ref, const std::string& name) { n += 1 + i; if (name != "only" || ref.getValue(one) != 3) c.violate("wrong-apply", "apply to one member"); });
    if (n != 1) c.violate("wrong-apply", "apply visited one member %u times", n);
}

void simRun(Ctx& c) {
    static_assert(DefaultTraits<S>::size() == 7 && DefaultIOTraits<S>::size() == 7 && DefaultArithmeticTraits<S>::size() == 4, "sizes");
    World w(c);
    sim::Alloc::fillByte((unsigned char)c.pick(256, "fresh memory"));
    auto def = DefaultTraits<S>::getTraits();
    auto io = DefaultIOTraits<S>::getTraits();
    auto arith = DefaultArithmeticTraits<S>::getTraits();
    typedef decltype(made(false)) M;
    typedef decltype(madeRef()) R;
    std::unique_ptr<M> m(new M(made(false))), m2(new M(made(true)));
    std::unique_ptr<R> r(new R(madeRef()));
    auto two = makeTraits<S>("same", &S::b, "same too", std::make_pair(&S::getB, &S::setB));
    auto one = makeTraits<S>("g", std::make_pair(&S::getG, &S::setG));
    auto inner = makeTraits<Inner>("number of the inner", &Inner::x);
    size_t n = 3 + c.pick(c.thorough() ? 60 : 20, "operations");
    for (size_t i = 0; i < n; i++) {
        int k = (int)c.pick(12, "traits");
        w.hist = sim::mix64(w.hist, k);
        switch (k) {
        case 0: use(w, def, declDefault); break;
        case 1: use(w, io, declIO); break;
        case 2: use(w, arith, declArith); break;
        case 3: use(w, *m, declMade); break;
        case 4: use(w, *m2, declMade2); break;
        case 5: use(w, *r, declRef); break;
        case 6: use(w, two, declTwo); break;
        case 7: use(w, one, declOne); break;
        case 8: paths(w); break;
        case 9: // traits are values: a copy serves when the original is gone
            if (c.chance(1, 2, "move")) { c.ev("move the traits"); m.reset(new M(M(*m))); m2.reset(new M(std::move(*m2))); r.reset(new R(std::move(*r))); }
            else {
                c.ev("copy the traits");
                int e = w.guarded("copying traits", [&] { m.reset(new M(*m)); });
                (void)e;
                r.reset(new R(*r));
            }
            break;
        case 10: { // traits bound to an object: the first traits of the class, or the default
            size_t o = c.pick(3, "object");
            auto b = bindTraits(w.obj[o], *m, inner, io);
            auto b2 = bindTraits(w.obj[o], inner, two);
            auto b3 = bindTraits(w.obj[o], inner);
            typedef decltype(b) B;
            auto copy = b;
            if (&b.object != &w.obj[o] || &copy.object != &w.obj[o]) c.violate("wrong-object", "bound traits refer to another object");
            c.ev("bound traits of object %zu", o);
            int q = (int)c.pick(5, "selection");
            switch (q) {
            case 0: { auto& s = SelectTraitsWithIODefault<S, M, decltype(inner), decltype(io)>::getTraitsInstance(copy.tupTraits); named(c, s, "lambda", "a selection"); use(w, s, declMade); break; }
            case 1: { auto& s = SelectTraitsWithIODefault<Inner, M, decltype(inner), decltype(io)>::getTraitsInstance(b.tupTraits); named(c, s, "number of the inner", "a selection"); break; }
            case 2: { auto& s = SelectTraitsWithIODefault<S, decltype(inner), decltype(two)>::getTraitsInstance(b2.tupTraits); named(c, s, "same", "a selection"); use(w, s, declTwo); break; }
            case 3: { auto s = SelectTraitsWithIODefault<S, decltype(inner)>::getTraitsInstance(b3.tupTraits); named(c, s, "b by member functions", "the default"); use(w, s, declIO); break; }
            case 4: { auto s = SelectTraitsWithArithmeticDefault<S, decltype(inner)>::getTraitsInstance(b3.tupTraits); named(c, s, "inner", "the default"); use(w, s, declArith); break; }
            }
            (void)sizeof(B);
            w.check("using bound traits");
            break;
        }
        case 11: templates(w); w.check("traits of templates"); break;
        }
    }
    c.mix(w.hist);
    c.state(w.hist);
    if (w.sets >= 3) c.nontrivial(w.hist);
}
