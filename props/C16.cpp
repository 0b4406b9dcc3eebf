// C16: a singleton is created once for all threads.
// BUILD: tsan debug
#include "sim.h"
#include "threads.h"
#include <fstream>
#include <memory>
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/Debug/Debug.h>
#include <GTMesh/Singleton/Singleton.h>
#include <new>
#include <sstream>
#include <stdexcept>
using sim::Ctx;
using sim::Sched;

const sim::HarnessInfo simHarness = {
    "C16", "exploration",
    "a run starts up to three groups of one to four simulated threads; each thread asks one to four times for the instance of one of several singleton classes or for the debug console logger; the constructors take several steps, throw in the attempts drawn, or ask for another singleton; the allocation of the instance fails at a drawn point; checked: never two constructions at the same time nor after a successful one, each caller that gets an instance gets the same fully constructed object, callers of failed attempts get the exception of the constructor, the next attempt constructs again, the instance lives on after the threads that made it have ended, no data race, no deadlock; non-trivial: two threads asked in the same group; distinct by interleaving",
    "Singleton, dbg::getDebugConsoleLogger, dbg::DBGStatics",
    "threads (one at a time, chosen by the tape), initialisation guards and locks of the C++ run time, memory allocator (simulated)",
    "one switch of threads",
    "the memory model is sequentially consistent with happens-before race detection",
    60000, 2000000};

namespace {
struct Plan { int throwIn = 0; int steps = 1; int asks = 0; };
Plan plan[4];
struct Life { int started = 0, done = 0, failed = 0, running = 0, destroyed = 0; const void* first = nullptr; } life[4];
// bookkeeping of the simulation: not instrumented, only one thread runs at a time
#define RAW __attribute__((no_sanitize("thread"), noinline))
Ctx* C;
RAW void begin(int i) {
    if (life[i].running) C->violate("two-constructions", "the constructor of singleton %d runs in two threads at the same time", i);
    if (life[i].done) C->violate("two-constructions", "singleton %d is constructed a second time", i);
    life[i].running++;
    life[i].started++;
    C->ev("thread %d constructs %d, attempt %d", Sched::self(), i, life[i].started);
}
RAW bool fails(int i) { return plan[i].throwIn >= life[i].started; }
RAW int stepsOf(int i) { return plan[i].steps; }
RAW int asks(int i) { return plan[i].asks; }
RAW void finish(int i, bool ok) { life[i].running--; if (ok) life[i].done++; else life[i].failed++; }
RAW void destroyed(int i) { life[i].destroyed++; }

template <int N> struct Object {
    long magic;
    std::string text;
    std::vector<int> numbers;
    Object() : magic(0) {
        begin(N);
        struct Done { bool ok = false; ~Done() { finish(N, ok); } } d;
        for (int i = 0; i < stepsOf(N); i++) { numbers.push_back(i); Sched::yield(); }
        if (N == 0 && asks(N)) Singleton<Object<1>>::getInstance();
        if (fails(N)) throw std::runtime_error("constructor of " + std::to_string(N));
        text = "a text which does not fit into the object itself " + std::to_string(N);
        Sched::yield();
        magic = 4711 + N;
        d.ok = true;
    }
    ~Object() { destroyed(N); magic = -1; }
    bool good() const { return magic == 4711 + N && (int)numbers.size() >= 1 && text == "a text which does not fit into the object itself " + std::to_string(N); }
};
struct Small { int a = 7; };
RAW void got(int i, const void* p) {
    if (life[i].done != 1) C->violate("no-construction", "an instance of %d was returned, completed constructions: %d", i, life[i].done);
    if (life[i].destroyed) C->violate("destroyed", "the instance of %d returned was already destroyed", i);
    if (!life[i].first) life[i].first = p;
    else if (life[i].first != p) C->violate("two-instances", "two instances of singleton %d were returned", i);
}
RAW void raised(int i, const char* what, bool memory) {
    C->ev("thread %d: %s", Sched::self(), what);
    if (memory) { if (!Sched::allocFailures()) C->violate("wrong-exception", "bad_alloc without a failed allocation"); C->probe("allocation failed"); return; }
    C->probe("constructor threw");
    (void)i;
}
struct MayFail { MayFail() { Sched::mayFail(true); } ~MayFail() { Sched::mayFail(false); } };
template <typename T> T& instance() { MayFail f; return Singleton<T>::getInstance(); }
dbg::DBGStatics& statics() { MayFail f; return Singleton<dbg::DBGStatics>::getInstance(); }
ConsoleLogger& logger() { MayFail f; return dbg::getDebugConsoleLogger(); }
template <int N> void ask(bool expectThere) {
    try {
        Object<N>& o = instance<Object<N>>();
        if (!o.good()) C->violate("half-constructed", "the instance of singleton %d returned is not completely constructed", N);
        got(N, &o);
    } catch (const std::bad_alloc& e) {
        if (expectThere) C->violate("exception", "asking for the existing instance of %d threw %s", N, e.what());
        raised(N, e.what(), true);
    } catch (const std::runtime_error& e) {
        if (expectThere) C->violate("exception", "asking for the existing instance of %d threw %s", N, e.what());
        std::string w = e.what();
        if (w != "constructor of " + std::to_string(N) && !(N == 0 && w == "constructor of 1")) C->violate("wrong-exception", "singleton %d threw: %s", N, e.what());
        raised(N, e.what(), false);
    }
}
const void* loggerAt;
const void* smallAt;
RAW void loggerGot(const void* p) { if (!loggerAt) loggerAt = p; else if (loggerAt != p) C->violate("two-instances", "two console loggers were returned"); }
RAW void smallGot(const void* p) { if (!smallAt) smallAt = p; else if (smallAt != p) C->violate("two-instances", "two instances of a small singleton were returned"); }
const void* staticsAt;
RAW void staticsGot(const void* p) { if (!staticsAt) staticsAt = p; else if (staticsAt != p) C->violate("two-instances", "two instances of DBGStatics were returned"); }
void askOne(int what) {
    switch (what) {
    case 0: ask<0>(false); break;
    case 1: ask<1>(false); break;
    case 2: ask<2>(false); break;
    case 3: try { auto& l = logger(); loggerGot(&l); } catch (const std::bad_alloc&) {} break;
    case 4: try { Small& s = instance<Small>(); if (s.a != 7) C->violate("half-constructed", "the small singleton is not constructed"); smallGot(&s); } catch (const std::bad_alloc&) {} break;
    case 5: try { auto& s = statics(); staticsGot(&s); } catch (const std::bad_alloc&) {} break;
    }
}
} // namespace

void simRun(Ctx& c) {
    C = &c;
    sim::enterScratch(c); // DBGStatics opens its files in the current directory
    for (int i = 0; i < 3; i++) {
        plan[i].throwIn = c.chance(1, 3, "constructor throws") ? 1 + (int)c.pick(4, "attempts that throw") : 0;
        plan[i].steps = 1 + (int)c.pick(6, "steps of the constructor");
    }
    plan[0].asks = c.chance(1, 3, "constructor asks for another singleton");
    int groups = 1 + (int)c.pick(3, "groups");
    int main_ = (int)c.pick(4, "main thread");
    if (main_ == 3) { c.ev("main thread asks first"); ask<2>(false); }
    bool many = false;
    uint64_t sig = 0;
    bool favour = c.chance(1, 2, "all ask for the same");
    int favourite = (int)c.pick(6, "singleton");
    for (int g = 0; g < groups; g++) {
        size_t n = 1 + c.pick(4, "threads");
        std::vector<std::vector<int>> asks(n);
        std::vector<std::function<void()>> fns;
        bool before[3];
        for (int i = 0; i < 3; i++) before[i] = life[i].done > 0;
        for (size_t t = 0; t < n; t++) {
            size_t k = 1 + c.pick(4, "asks");
            for (size_t j = 0; j < k; j++) asks[t].push_back(favour ? favourite : (int)c.pick(6, "singleton"));
            const std::vector<int>* a = &asks[t];
            fns.push_back([a]() { for (int w : *a) askOne(w); });
        }
        if (n > 1) many = true;
        uint64_t fail = c.chance(1, 5, "allocation fails") ? 1 + c.skew(64, "allocation") : 0;
        Sched::failAlloc(fail);
        Sched::run(c, fns);
        for (int i = 0; i < 3; i++) {
            if (before[i] && life[i].done != 1) c.violate("two-constructions", "singleton %d was constructed again", i);
            if (life[i].destroyed && life[i].done) c.violate("destroyed", "the instance of singleton %d was destroyed while the program goes on", i);
            if (life[i].running) c.violate("half-constructed", "a constructor of %d did not end", i);
            if (life[i].done) c.probe("instance made by a thread that has ended");
        }
        sig = sim::mix64(sig, c.hash());
        // the main thread uses what the threads have made
        if (main_ == 1) { if (life[0].done) ask<0>(true); if (life[1].done) ask<1>(true); if (life[2].done) ask<2>(true); }
    }
    // in the end everything can be constructed
    for (int i = 0; i < 3; i++) plan[i].throwIn = 0;
    ask<0>(true); ask<1>(true); ask<2>(true);
    askOne(3); askOne(4); askOne(5);
    for (int i = 0; i < 3; i++) {
        if (life[i].done != 1) c.violate("two-constructions", "singleton %d: %d completed constructions", i, life[i].done);
        if (life[i].destroyed) c.violate("destroyed", "an instance of %d was destroyed", i);
    }
    c.state(sim::mix64(life[0].started * 100 + life[1].started * 10 + life[2].started, Sched::switches()));
    if (many) c.nontrivial(sig);
}
