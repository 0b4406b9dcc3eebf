// Seeded scheduler of real threads with a baton, happens-before race detection, simulated locks. See DESIGN.md.
// The instrumentation is the one of -fsanitize=thread; this file is its run time. It is itself not instrumented.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "threads.h"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <iostream>
#include <new>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cxxabi.h>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" char __executable_start, etext, edata, end, __data_start;

namespace sim {
namespace {

const int T = 4;                 // threads of one phase
typedef uint32_t Clock;

struct Cell { Clock w[T], r[T]; uint32_t wpc[T], rpc[T]; uint8_t wm[T], rm[T]; };
struct Page { uintptr_t key; Cell* cells; };

enum Status { RUNNABLE, BLOCKED, ENDED };
struct Thread {
    pthread_t real;
    int futexWord;
    Status status;
    const void* waitsFor;
    bool timedWait, timedOut;
    Clock vc[T];
    uintptr_t stackLo, stackHi;
    const std::function<void()>* fn;
    int prio;
    char error[600];
    bool failed;
};
struct SyncVar { const void* addr; Clock vc[T]; int owner, count, readers; bool writer; };

Ctx* ctx;
bool active;
int nThreads;
Thread th[T];
thread_local int me = -1;
thread_local int inRt = 0;
thread_local bool allocMayFail = false;
thread_local Page lastPage;
pthread_key_t endKey;
bool keyMade;

Page* pages;
const size_t PAGES = 1u << 15;
char* arena;
size_t arenaUsed, arenaSize;
SyncVar* sync_;
const size_t SYNCS = 1u << 17;
bool racesOff;                   // the tables of the race detector are full: from there on schedules only
size_t nSync;

int mode;                        // 0 one after another, 1 random gaps, 2 priorities, 3 at conflicts
uint64_t budget, scale, nEvents, nSwitches, lastSwitch, sinceRotation, hotLeft;
uint64_t changePoint[8];
int nChange, nextChange;
uint64_t failAt, nAllocs, nAllocFailed;
void* quarantine;                // freed blocks, linked by their first word

struct Rt { Rt() { inRt++; } ~Rt() { inRt--; } };

void futexWait(int* w, int v) { syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futexWake(int* w) { syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

std::string where(uintptr_t off) {
    void* pc = (void*)((uintptr_t)&__executable_start + off - 1);
    Dl_info d;
    if (!dladdr(pc, &d) || !d.dli_sname) return "?";
    int st = 0;
    char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    std::string s = n ? n : d.dli_sname;
    __libc_free(n);
    if (s.size() > 220) s = s.substr(0, 217) + "...";
    return s;
}
uint32_t offsetOf(const void* pc) { return (uint32_t)((uintptr_t)pc - (uintptr_t)&__executable_start); }

void baton(int t) { // give the baton to t
    __atomic_store_n(&th[t].futexWord, 1, __ATOMIC_SEQ_CST);
    futexWake(&th[t].futexWord);
}
void awaitBaton(int t) {
    while (!__atomic_load_n(&th[t].futexWord, __ATOMIC_SEQ_CST)) futexWait(&th[t].futexWord, 0);
    __atomic_store_n(&th[t].futexWord, 0, __ATOMIC_SEQ_CST);
}
int mainFutex;

int runnable(int* out, int except) {
    int n = 0;
    for (int i = 0; i < nThreads; i++) if (i != except && th[i].status == RUNNABLE) out[n++] = i;
    return n;
}
void newBudget() {
    switch (mode) {
    case 1: budget = 1 + ctx->pick(2 * scale, "steps until the switch"); break;
    case 2: budget = nextChange < nChange ? (changePoint[nextChange] > nEvents ? changePoint[nextChange] - nEvents : 1) : UINT64_MAX; break;
    default: budget = UINT64_MAX;
    }
}
int choose(int* r, int n) {
    if (n == 1) return r[0];
    if (mode == 0) return r[0];
    if (mode == 2) { int b = r[0]; for (int i = 1; i < n; i++) if (th[r[i]].prio > th[b].prio) b = r[i]; return b; }
    return r[ctx->pick(n, "thread")];
}
void switchTo(int t, const char* why) {
    int self = me;
    if (t == self) return;
    nSwitches++;
    ctx->step();
    ctx->ev("%s: thread %d -> %d at event %llu", why, self, t, (unsigned long long)nEvents);
    lastSwitch = nEvents;
    sinceRotation = 0;
    baton(t);
    awaitBaton(self);
}
/// the running thread may lose the baton
void preempt(const char* why) {
    int r[T];
    if (mode == 2 && nextChange < nChange && nEvents >= changePoint[nextChange]) { th[me].prio = -1 - nextChange; nextChange++; }
    int n;
    if (mode == 2) { n = runnable(r, -1); int t = choose(r, n); newBudget(); switchTo(t, why); return; }
    n = runnable(r, me);
    newBudget();
    if (n) switchTo(choose(r, n), why);
}
[[noreturn]] void deadlock() {
    std::string s;
    for (int i = 0; i < nThreads; i++) if (th[i].status == BLOCKED) s += " thread " + std::to_string(i);
    ctx->violate("deadlock", "no thread can go on; blocked:%s", s.c_str());
}
/// the running thread blocks (or ended): another one must go on
void passOn(const char* why) {
    int r[T];
    int n = runnable(r, me);
    if (!n) {
        for (int i = 0; i < nThreads; i++) if (th[i].status == BLOCKED && th[i].timedWait) { th[i].timedOut = true; th[i].status = RUNNABLE; r[n++] = i; break; }
    }
    if (!n) {
        for (int i = 0; i < nThreads; i++) if (th[i].status == BLOCKED) deadlock();
        return; // all ended
    }
    newBudget();
    int t = choose(r, n);
    if (th[me].status == ENDED) {
        ctx->ev("%s: thread %d -> %d at event %llu", why, me, t, (unsigned long long)nEvents);
        nSwitches++;
        ctx->step();
        baton(t);
    } else if (t != me) switchTo(t, why);
}
void block(const void* what, bool timed) {
    th[me].status = BLOCKED;
    th[me].waitsFor = what;
    th[me].timedWait = timed;
    th[me].timedOut = false;
    passOn("blocked");
}
void wake(const void* what, bool all) {
    for (int i = 0; i < nThreads; i++) if (th[i].status == BLOCKED && th[i].waitsFor == what) {
        th[i].status = RUNNABLE;
        if (!all) return;
    }
}
inline void event() {
    nEvents++;
    if (--budget == 0) preempt("preempted");
    else if (++sinceRotation > 400000) { // fairness
        sinceRotation = 0;
        int r[T];
        int n = runnable(r, me);
        if (n) { int t = r[0]; for (int i = 0; i < n; i++) if (r[i] > me) { t = r[i]; break; } switchTo(t, "rotation"); }
    }
    if (nEvents > 400000000ULL) ctx->violate("no-progress", "the threads have not ended after %llu events", (unsigned long long)nEvents);
}
void hot(unsigned den) {
    if (mode == 3 && hotLeft) {
        hotLeft--;
        if (ctx->pick(den, "switch at a conflict") == den - 1) preempt("conflict");
    }
}

SyncVar* syncVar(const void* a) {
    size_t h = ((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ULL >> 47;
    for (size_t k = 0; k < SYNCS; k++, h = (h + 1) & (SYNCS - 1)) {
        if (sync_[h].addr == a) return &sync_[h];
        if (!sync_[h].addr) { sync_[h].addr = a; sync_[h].owner = -1; nSync++; return &sync_[h]; }
    }
    fprintf(stderr, "SIM: too many synchronisation objects\n");
    _exit(99);
}
void acquire(SyncVar* s) { for (int i = 0; i < T; i++) if (s->vc[i] > th[me].vc[i]) th[me].vc[i] = s->vc[i]; }
void release(SyncVar* s) {
    for (int i = 0; i < T; i++) if (th[me].vc[i] > s->vc[i]) s->vc[i] = th[me].vc[i];
    th[me].vc[me]++;
}
inline bool tracked() { return active && me >= 0 && !inRt; }

Cell* cellsOf(uintptr_t key, bool create) {
    if (lastPage.key == key) return lastPage.cells;
    size_t h = (key * 0x9E3779B97F4A7C15ULL) >> 49;
    for (size_t k = 0; k < PAGES; k++, h = (h + 1) & (PAGES - 1)) {
        if (pages[h].key == key) { lastPage = pages[h]; return pages[h].cells; }
        if (!pages[h].key) {
            if (!create) return nullptr;
            if (arenaUsed + 512 * sizeof(Cell) > arenaSize) break;
            pages[h].key = key;
            pages[h].cells = (Cell*)(arena + arenaUsed);
            arenaUsed += 512 * sizeof(Cell);
            lastPage = pages[h];
            return pages[h].cells;
        }
    }
    if (create) racesOff = true;
    return nullptr;
}
void forget(const void* p, size_t n) {
    if (racesOff) return;
    uintptr_t a = (uintptr_t)p & ~7ULL, e = (uintptr_t)p + n;
    while (a < e) {
        uintptr_t pe = (a | 4095) + 1;
        if (pe > e) pe = (e + 7) & ~7ULL;
        Cell* c = cellsOf(a >> 12, false);
        if (c) memset(c + ((a & 4095) >> 3), 0, ((pe - a) >> 3) * sizeof(Cell));
        a = pe;
    }
}
[[noreturn]] void race(uintptr_t a, bool w, uint32_t pc, int u, bool uw, uint32_t upc) {
    std::string x = where(pc), y = where(upc);
    bool global = a >= (uintptr_t)&__data_start && a < (uintptr_t)&end;
    std::string name;
    Dl_info d;
    if (global && dladdr((void*)a, &d) && d.dli_sname) { int st; char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); name = std::string(" (") + (n ? n : d.dli_sname) + ")"; }
    ctx->violate("data-race", "data race: thread %d %s %s memory%s in %s, not ordered with thread %d which %s it in %s",
                 me, w ? "writes" : "reads", global ? "static" : "heap or stack", name.c_str(), x.c_str(), u, uw ? "wrote" : "read", y.c_str());
}
/// the standard streams may be used by several threads
template <typename S> inline bool inside(uintptr_t a, const S& s) { return a - (uintptr_t)&s < sizeof s; }
inline bool standardStream(uintptr_t a) { return inside(a, std::cerr) || inside(a, std::cout) || inside(a, std::clog) || inside(a, std::cin); }
void access(uintptr_t a, size_t n, bool w, const void* pcp) {
    Thread& me_ = th[me];
    if (a >= me_.stackLo && a < me_.stackHi) return;
    if (standardStream(a)) return;
    Rt rt;
    event();
    bool global = a >= (uintptr_t)&__data_start && a < (uintptr_t)&end;
    if (a < 4096) return; // the access itself will crash
    bool conflict = global && w;
    uint32_t pc = offsetOf(pcp);
    uint32_t other = 0;
    for (uintptr_t e = a + n; a < e;) {
        uintptr_t g = a & ~7ULL, ge = g + 8 < e ? g + 8 : e;
        uint8_t m = (uint8_t)((0xff << (a - g)) & (0xff >> (8 - (ge - g))));
        Cell* page = racesOff ? nullptr : cellsOf(g >> 12, true);
        if (!page) break;
        Cell& c = page[(g & 4095) >> 3];
        for (int u = 0; u < nThreads; u++) {
            if (u == me) continue;
            if (c.wm[u] & m) {
                if (c.w[u] > me_.vc[u]) race(a, w, pc, u, true, c.wpc[u]);
                conflict = true;
                other = c.wpc[u];
            }
            if (c.rm[u] & m) {
                if (w) {
                    if (c.r[u] > me_.vc[u]) race(a, w, pc, u, false, c.rpc[u]);
                    conflict = true;
                }
                other = c.rpc[u];
            }
        }
        if (w) {
            if (c.w[me] == me_.vc[me]) c.wm[me] |= m; else { c.w[me] = me_.vc[me]; c.wm[me] = m; }
            c.wpc[me] = pc;
        } else {
            if (c.r[me] == me_.vc[me]) c.rm[me] |= m; else { c.r[me] = me_.vc[me]; c.rm[me] = m; }
            c.rpc[me] = pc;
        }
        a = ge;
    }
    if (other && (nEvents & 15) == 0) ctx->state(mix64(pc, other));
    if (conflict || global) hot(4);
}
#define PC __builtin_return_address(0)
inline void onAccess(const void* a, size_t n, bool w, const void* pc) { if (tracked() && n) access((uintptr_t)a, n, w, pc); }

void ended(void*) {
    // runs after the destructors of the thread-local objects
    if (me < 0) return;
    inRt++;
    th[me].status = ENDED;
    bool all = true;
    for (int i = 0; i < nThreads; i++) all = all && th[i].status == ENDED;
    if (all) {
        active = false;
        __atomic_store_n(&mainFutex, 1, __ATOMIC_SEQ_CST);
        futexWake(&mainFutex);
    } else passOn("ended");
    me = -1;
}
void* threadMain(void* arg) {
    inRt++;
    int id = (int)(intptr_t)arg;
    pthread_setspecific(endKey, (void*)1);
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void* lo;
    size_t sz;
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    th[id].stackLo = (uintptr_t)lo;
    th[id].stackHi = (uintptr_t)lo + sz;
    __atomic_store_n(&mainFutex, 1, __ATOMIC_SEQ_CST); // parked
    futexWake(&mainFutex);
    awaitBaton(id);
    me = id;
    lastPage = Page();
    inRt--;
    try {
        (*th[id].fn)();
    } catch (const std::exception& e) {
        inRt++;
        th[id].failed = true;
        snprintf(th[id].error, sizeof th[id].error, "%s", e.what());
        inRt--;
    } catch (...) {
        th[id].failed = true;
        snprintf(th[id].error, sizeof th[id].error, "unknown exception");
    }
    return nullptr;
}

template <typename F> F real(F& f, const char* n) { if (!f) f = (F)dlsym(RTLD_NEXT, n); return f; }

} // namespace

int Sched::self() { return me; }
uint64_t Sched::switches() { return nSwitches; }
uint64_t Sched::events() { return nEvents; }
void Sched::failAlloc(uint64_t n) { failAt = n; nAllocs = 0; nAllocFailed = 0; }
void Sched::mayFail(bool on) { allocMayFail = on; }
uint64_t Sched::allocFailures() { return nAllocFailed; }
void Sched::yield() {
    if (!tracked()) return;
    Rt rt;
    event();
    hot(3);
}
void Sched::run(Ctx& c, const std::vector<std::function<void()>>& fns) {
    static int (*create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static int (*join)(pthread_t, void**);
    ctx = &c;
    nThreads = (int)fns.size();
    if (nThreads > T || nThreads < 1) { fprintf(stderr, "SIM: bad number of threads\n"); _exit(99); }
    if (!arena) {
        arenaSize = (size_t)6 << 30;
        arena = (char*)mmap(nullptr, arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pages = (Page*)mmap(nullptr, PAGES * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        sync_ = (SyncVar*)mmap(nullptr, SYNCS * sizeof(SyncVar), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == MAP_FAILED || pages == MAP_FAILED || sync_ == MAP_FAILED) { perror("mmap"); _exit(99); }
    } else {
        memset(pages, 0, PAGES * sizeof(Page)); // what happened before happens before everything from now on
        madvise(arena, arenaUsed, MADV_DONTNEED);
        arenaUsed = 0;
        madvise(sync_, SYNCS * sizeof(SyncVar), MADV_DONTNEED);
        racesOff = false;
    }
    if (!keyMade) { pthread_key_create(&endKey, ended); keyMade = true; }
    mode = (int)c.pick(4, "scheduler");
    nSwitches = nEvents = lastSwitch = sinceRotation = 0;
    nChange = nextChange = 0;
    hotLeft = 3000;
    scale = 1;
    for (int i = 0; i < nThreads; i++) {
        memset(&th[i], 0, sizeof th[i]);
        th[i].fn = &fns[i];
        th[i].vc[i] = 1;
    }
    static const char* names[] = {"one after another", "random gaps", "priorities", "switches at conflicts"};
    int first = 0;
    if (mode == 1) scale = 1ULL << c.pick(14, "scale");
    if (mode == 2) {
        for (int i = 0; i < nThreads; i++) th[i].prio = (int)c.pick(1000, "priority");
        nChange = (int)c.pick(5, "change points");
        for (int i = 0; i < nChange; i++) changePoint[i] = 1 + c.skew(1u << 20, "change point");
        for (int i = 0; i < nChange; i++) for (int j = i + 1; j < nChange; j++) if (changePoint[j] < changePoint[i]) std::swap(changePoint[i], changePoint[j]);
        for (int i = 1; i < nThreads; i++) if (th[i].prio > th[first].prio) first = i;
    } else if (mode) first = (int)c.pick(nThreads, "first thread");
    c.ev("%d threads, %s", nThreads, names[mode]);
    c.probe(mode == 0 ? "scheduler: one after another" : mode == 1 ? "scheduler: random gaps" : mode == 2 ? "scheduler: priorities" : "scheduler: conflicts");
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1u << 20);
    for (int i = 0; i < nThreads; i++) {
        mainFutex = 0;
        if (real(create, "pthread_create")(&th[i].real, &at, threadMain, (void*)(intptr_t)i) != 0) { perror("pthread_create"); _exit(99); }
        while (!__atomic_load_n(&mainFutex, __ATOMIC_SEQ_CST)) futexWait(&mainFutex, 0);
    }
    pthread_attr_destroy(&at);
    mainFutex = 0;
    newBudget();
    active = true;
    baton(first);
    while (!__atomic_load_n(&mainFutex, __ATOMIC_SEQ_CST)) futexWait(&mainFutex, 0);
    for (int i = 0; i < nThreads; i++) real(join, "pthread_join")(th[i].real, nullptr);
    failAt = 0;
    c.probe("thread switches", nSwitches);
    c.probe("scheduling points", nEvents);
    if (racesOff) c.probe("race detector full");
    c.ev("threads ended: %llu events, %llu switches", (unsigned long long)nEvents, (unsigned long long)nSwitches);
    for (int i = 0; i < nThreads; i++) if (th[i].failed) c.violate("exception-in-thread", "thread %d ended by an exception: %s", i, th[i].error);
}

} // namespace sim
using namespace sim;

// ---- memory -------------------------------------------------------------------------------------------------
static bool allocFails() {
    if (!failAt || !allocMayFail || !active || me < 0 || inRt) return false;
    if (++nAllocs == failAt) { nAllocFailed++; return true; }
    return false;
}
static void* fresh(void* p) {
    if (p && active && me >= 0) { inRt++; forget(p, malloc_usable_size(p)); inRt--; }
    return p;
}
extern "C" {
void* malloc(size_t n) {
    return fresh(__libc_malloc(n < 16 ? 16 : n));
}
void free(void* p) {
    if (!p) return;
    if (active && me >= 0) {
        size_t n = malloc_usable_size(p);
        if (!inRt) access((uintptr_t)p, n, true, PC);
        inRt++;
        memset(p, 0xDD, n);
        *(void**)p = quarantine; // never used again in this run
        quarantine = p;
        inRt--;
        return;
    }
    __libc_free(p);
}
void* calloc(size_t a, size_t b) {
    return fresh(__libc_calloc(a, b < 16 ? 16 : b));
}
void* realloc(void* p, size_t n) {
    if (!active || me < 0) return __libc_realloc(p, n);
    void* q = malloc(n);
    if (q && p) { size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); free(p); }
    return q;
}
void* memalign(size_t a, size_t n) { return fresh(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }

}
// only the allocations of C++ fail, not those of the C library
void* operator new(size_t n) { void* p = allocFails() ? nullptr : malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocFails() ? nullptr : malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocFails() ? nullptr : malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
extern "C" {
// ---- instrumentation ------------------------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** a, void* v) { if (*a != v) onAccess(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { onAccess(a, 8, false, PC); }
#define RW(N) \
void __tsan_read##N(void* a) { onAccess(a, N, false, PC); } \
void __tsan_write##N(void* a) { onAccess(a, N, true, PC); } \
void __tsan_unaligned_read##N(void* a) { onAccess(a, N, false, PC); } \
void __tsan_unaligned_write##N(void* a) { onAccess(a, N, true, PC); } \
void __tsan_volatile_read##N(void* a) { onAccess(a, N, false, PC); } \
void __tsan_volatile_write##N(void* a) { onAccess(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { onAccess(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { onAccess(a, n, true, PC); }

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { onAccess(s, n, false, PC); onAccess(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { onAccess(s, n, false, PC); onAccess(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { onAccess(d, n, true, PC); return __real_memset(d, v, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { onAccess(a, n, false, PC); onAccess(b, n, false, PC); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); onAccess(s, n + 1, false, PC); return n; }
}
// ---- atomics ----------------------------------------------------------------------------------------------------
static void atomicOp(const volatile void* a, int mo, bool load, bool store) {
    if (!tracked()) return;
    Rt rt;
    event();
    hot(2);
    if (mo == __ATOMIC_RELAXED) return;
    SyncVar* s = syncVar((const void*)a);
    if (load && mo != __ATOMIC_RELEASE) acquire(s);
    if (store && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) release(s);
}
#define ATOMIC(B, U) \
extern "C" U __tsan_atomic##B##_load(const volatile U* a, int mo) { atomicOp(a, mo, true, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
extern "C" void __tsan_atomic##B##_store(volatile U* a, U v, int mo) { atomicOp(a, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" U __tsan_atomic##B##_exchange(volatile U* a, U v, int mo) { atomicOp(a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" U __tsan_atomic##B##_fetch_add(volatile U* a, U v, int mo) { atomicOp(a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
extern "C" U __tsan_atomic##B##_fetch_sub(volatile U* a, U v, int mo) { atomicOp(a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
extern "C" U __tsan_atomic##B##_fetch_and(volatile U* a, U v, int mo) { atomicOp(a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
extern "C" U __tsan_atomic##B##_fetch_or(volatile U* a, U v, int mo) { atomicOp(a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
extern "C" U __tsan_atomic##B##_fetch_xor(volatile U* a, U v, int mo) { atomicOp(a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
extern "C" U __tsan_atomic##B##_fetch_nand(volatile U* a, U v, int mo) { atomicOp(a, mo, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile U* a, U* e, U v, int mo, int) { atomicOp(a, mo, true, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile U* a, U* e, U v, int mo, int) { atomicOp(a, mo, true, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
extern "C" U __tsan_atomic##B##_compare_exchange_val(volatile U* a, U e, U v, int mo, int) { atomicOp(a, mo, true, true); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---- function-local statics -----------------------------------------------------------------------------------
extern "C" int __cxa_guard_acquire(uint64_t* g) {
    unsigned char* b = (unsigned char*)g;
    if (!active || me < 0 || inRt) {
        if (b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    Rt rt;
    event();
    hot(2);
    for (;;) {
        if (b[0]) { acquire(syncVar(g)); return 0; }
        if (!b[1]) { b[1] = 2 + me; acquire(syncVar(g)); return 1; }
        if (b[1] == 2 + me) ctx->violate("recursive-initialisation", "the initialisation of a static object needs the object itself");
        block(g, false);
    }
}
extern "C" void __cxa_guard_release(uint64_t* g) {
    unsigned char* b = (unsigned char*)g;
    b[1] = 0;
    if (active && me >= 0 && !inRt) { Rt rt; release(syncVar(g)); b[0] = 1; wake(g, true); event(); hot(2); }
    else b[0] = 1;
}
extern "C" void __cxa_guard_abort(uint64_t* g) {
    unsigned char* b = (unsigned char*)g;
    b[1] = 0;
    if (active && me >= 0 && !inRt) { Rt rt; release(syncVar(g)); wake(g, true); event(); hot(2); }
}

// ---- locks ------------------------------------------------------------------------------------------------------
static bool simulated() { return active && me >= 0 && !inRt; }
static int lockMutex(pthread_mutex_t* m, bool wait, bool timed) {
    Rt rt;
    event();
    hot(2);
    SyncVar* s = syncVar(m);
    while (s->owner >= 0) {
        if (s->owner == me) {
            int kind = m->__data.__kind & 3;
            if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { s->count++; return 0; }
            if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
            if (!wait) return EBUSY;
        }
        if (!wait) return EBUSY;
        block(m, timed);
        if (timed && th[me].timedOut) return ETIMEDOUT;
    }
    s->owner = me;
    s->count = 1;
    acquire(s);
    return 0;
}
static int unlockMutex(pthread_mutex_t* m) {
    Rt rt;
    SyncVar* s = syncVar(m);
    if (s->owner != me) ctx->violate("bad-unlock", "a mutex is unlocked by a thread that does not hold it");
    if (--s->count == 0) { s->owner = -1; release(s); wake(m, true); }
    event();
    hot(2);
    return 0;
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { static int (*f)(pthread_mutex_t*); return simulated() ? lockMutex(m, true, false) : real(f, "pthread_mutex_lock")(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { static int (*f)(pthread_mutex_t*); return simulated() ? lockMutex(m, false, false) : real(f, "pthread_mutex_trylock")(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { static int (*f)(pthread_mutex_t*, const timespec*); return simulated() ? lockMutex(m, true, true) : real(f, "pthread_mutex_timedlock")(m, t); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const timespec* t) { static int (*f)(pthread_mutex_t*, clockid_t, const timespec*); return simulated() ? lockMutex(m, true, true) : real(f, "pthread_mutex_clocklock")(m, k, t); }
int pthread_mutex_unlock(pthread_mutex_t* m) { static int (*f)(pthread_mutex_t*); return simulated() ? unlockMutex(m) : real(f, "pthread_mutex_unlock")(m); }

static int lockRw(pthread_rwlock_t* m, bool write, bool wait) {
    Rt rt;
    event();
    hot(2);
    SyncVar* s = syncVar(m);
    while (s->writer || (write && s->readers)) { if (!wait) return EBUSY; block(m, false); }
    if (write) { s->writer = true; s->owner = me; } else s->readers++;
    acquire(s);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { static int (*f)(pthread_rwlock_t*); return simulated() ? lockRw(m, false, true) : real(f, "pthread_rwlock_rdlock")(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { static int (*f)(pthread_rwlock_t*); return simulated() ? lockRw(m, true, true) : real(f, "pthread_rwlock_wrlock")(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { static int (*f)(pthread_rwlock_t*); return simulated() ? lockRw(m, false, false) : real(f, "pthread_rwlock_tryrdlock")(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { static int (*f)(pthread_rwlock_t*); return simulated() ? lockRw(m, true, false) : real(f, "pthread_rwlock_trywrlock")(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    static int (*f)(pthread_rwlock_t*);
    if (!simulated()) return real(f, "pthread_rwlock_unlock")(m);
    Rt rt;
    SyncVar* s = syncVar(m);
    if (s->writer) { s->writer = false; s->owner = -1; } else if (s->readers) s->readers--;
    release(s);
    wake(m, true);
    event();
    hot(2);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
    static int (*f)(pthread_once_t*, void (*)());
    if (!simulated()) return real(f, "pthread_once")(o, fn);
    SyncVar* s;
    {
        Rt rt;
        event();
        hot(2);
        s = syncVar(o);
        for (;;) {
            if (*o == 2) { acquire(s); return 0; } // glibc: 2 is done
            if (s->owner < 0) { s->owner = me; break; }
            block(o, false);
        }
        acquire(s);
    }
    struct Leave { pthread_once_t* o; SyncVar* s; bool ok; ~Leave() { Rt rt; s->owner = -1; if (ok) *o = 2; release(s); wake(o, true); event(); hot(2); } } l{o, s, false};
    fn();
    l.ok = true;
    return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    unlockMutex(m);
    bool out;
    { Rt rt; block(c, timed); out = timed && th[me].timedOut; acquire(syncVar(c)); }
    lockMutex(m, true, false);
    return out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { static int (*f)(pthread_cond_t*, pthread_mutex_t*); return simulated() ? condWait(c, m, false) : real(f, "pthread_cond_wait")(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { static int (*f)(pthread_cond_t*, pthread_mutex_t*, const timespec*); return simulated() ? condWait(c, m, true) : real(f, "pthread_cond_timedwait")(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { static int (*f)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*); return simulated() ? condWait(c, m, true) : real(f, "pthread_cond_clockwait")(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t* c) { static int (*f)(pthread_cond_t*); if (!simulated()) return real(f, "pthread_cond_signal")(c); Rt rt; release(syncVar(c)); wake(c, false); event(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { static int (*f)(pthread_cond_t*); if (!simulated()) return real(f, "pthread_cond_broadcast")(c); Rt rt; release(syncVar(c)); wake(c, true); event(); return 0; }
static void giveUp() { Rt rt; nEvents++; int r[T]; int n = runnable(r, me); if (n) { int t = r[0]; for (int i = 0; i < n; i++) if (r[i] > me) { t = r[i]; break; } newBudget(); switchTo(t, "yield"); } }
int sched_yield() { if (simulated()) { giveUp(); return 0; } return (int)syscall(SYS_sched_yield); }
int nanosleep(const timespec* a, timespec* b) { if (simulated()) { giveUp(); return 0; } return (int)syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t k, int fl, const timespec* a, timespec* b) { if (simulated()) { giveUp(); return 0; } return (int)syscall(SYS_clock_nanosleep, k, fl, a, b); }
int usleep(unsigned u) { if (simulated()) { giveUp(); return 0; } timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); }
}
