// Search, replay, minimisation and evidence for the simulated runs. See DESIGN.md.
#include "sim.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <locale>
#include <map>
#include <sstream>
#include <typeinfo>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cxxabi.h>

namespace sim {

static const uint32_t MAXT = 1u << 16;   // choices per run
static const size_t TRACE = 1u << 16;    // trace text per run
static const uint32_t NPROBE = 256;
static const uint64_t SETBITS = 20;

struct Slot {
    uint64_t runId;
    uint64_t hash;
    uint64_t steps;
    uint32_t outcome; // 0 running, 1 ok, 2 violation, 3 discarded
    uint32_t ntape;
    uint32_t nontrivial;
    uint32_t overflow;
    uint64_t sig;
    char cls[160];
    char msg[4000];
    uint32_t tape[MAXT];
    uint32_t tapeN[MAXT];
    const char* label[MAXT];
    uint32_t traceLen;
    char trace[TRACE];
};

struct ProbeRec { std::atomic<uint32_t> used; char name[60]; std::atomic<uint64_t> n; };

struct Shared {
    std::atomic<uint64_t> nextRun;
    std::atomic<uint64_t> done;
    std::atomic<uint64_t> discarded;
    std::atomic<uint64_t> nontrivialRuns;
    std::atomic<uint64_t> steps;
    std::atomic<uint64_t> choices;
    std::atomic<uint32_t> stop;
    std::atomic<uint64_t> badRun;      // run id + 1 of the first reported violation
    std::atomic<uint32_t> probeLock;
    std::atomic<uint64_t> distinctSig, distinctState;
    std::atomic<uint64_t> recheck, mismatch, mismatchRun;
    std::atomic<uint64_t> maxTape;
    std::atomic<uint64_t> digest;      // of all histories, independent of their order
    ProbeRec probe[NPROBE];
    std::atomic<uint64_t> sigs[1u << SETBITS];
    std::atomic<uint64_t> states[1u << SETBITS];
    uint32_t sampleLen[4];
    char sample[4][4096];
};

static Shared* S = nullptr;
static Slot* cur = nullptr;      // slot of the running child
static bool running = false;     // in a run (not in the search)
bool inRun() { return running; }
static bool replaying = false;
static bool tracing = false;
static bool counting = true;     // update the shared counters
static const uint32_t* rtape = nullptr;
static uint32_t rtapeN = 0;
static bool isThorough = false;
static uint64_t rngState[2];
static std::string scratchDir;
static std::string scratchBase;
static int errFd = -1;

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static uint64_t rng() { // xorshift128+
    uint64_t s1 = rngState[0];
    const uint64_t s0 = rngState[1];
    rngState[0] = s0;
    s1 ^= s1 << 23;
    rngState[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return rngState[1] + s0;
}
static void seedRng(uint64_t seed, uint64_t run) {
    uint64_t x = seed * 0x9E3779B97F4A7C15ULL + run * 0xD1B54A32D192ED03ULL + 0x1234567;
    rngState[0] = splitmix(x);
    rngState[1] = splitmix(x) | 1;
}

uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
    const unsigned char* b = static_cast<const unsigned char*>(p);
    uint64_t x = h ^ 0xcbf29ce484222325ULL;
    for (size_t i = 0; i < n; i++) { x ^= b[i]; x *= 0x100000001b3ULL; }
    return mix64(x, n);
}
std::string printable(const std::string& s, size_t maxLen) {
    std::string r;
    for (size_t i = 0; i < s.size() && r.size() < maxLen; i++) {
        unsigned char ch = s[i];
        if (ch == '\n') r += "\\n"; else if (ch == '\\') r += "\\\\";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
        else r += ch;
    }
    if (s.size() > maxLen) r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
}

uint64_t Ctx::pick(uint64_t n, const char* label) {
    if (n <= 1) return 0;
    uint32_t v;
    uint32_t i = cur->ntape;
    if (i >= MAXT) { cur->overflow = 1; return 0; }
    if (replaying) v = i < rtapeN ? static_cast<uint32_t>(rtape[i] % n) : 0;
    else v = static_cast<uint32_t>(rng() % n);
    cur->tape[i] = v;
    cur->tapeN[i] = n > 0xffffffffULL ? 0xffffffffu : static_cast<uint32_t>(n);
    cur->label[i] = label;
    cur->ntape = i + 1;
    cur->hash = mix64(cur->hash, v);
    return v;
}
uint64_t Ctx::skew(uint64_t n, const char* label) {
    if (n <= 1) return 0;
    unsigned bits = 0;
    while ((1ULL << bits) < n) bits++;
    uint64_t b = pick(bits + 1, label);
    uint64_t hi = 1ULL << b;
    uint64_t v = pick(hi, label);
    return v % n;
}
void Ctx::mix(uint64_t v) { cur->hash = mix64(cur->hash, v); }
void Ctx::mix(const std::string& s) { cur->hash = hashStr(s, cur->hash); }
void Ctx::ev(const char* fmt, ...) {
    char buf[2048];
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (k < 0) k = 0;
    if (k >= (int)sizeof buf) k = sizeof buf - 1;
    cur->hash = hashBytes(buf, k, cur->hash);
    if (tracing && cur->traceLen + k + 2 < TRACE) {
        memcpy(cur->trace + cur->traceLen, buf, k);
        cur->traceLen += k;
        cur->trace[cur->traceLen++] = '\n';
    }
}
void Ctx::probe(const char* name, uint64_t n) {
    if (!counting) return;
    for (uint32_t i = 0; i < NPROBE; i++) {
        ProbeRec& p = S->probe[i];
        uint32_t u = p.used.load(std::memory_order_acquire);
        if (u == 0) {
            uint32_t expect = 0;
            if (p.used.compare_exchange_strong(expect, 1)) {
                snprintf(p.name, sizeof p.name, "%s", name);
                p.used.store(2, std::memory_order_release);
                p.n += n;
                return;
            }
            u = expect;
        }
        while (u == 1) u = p.used.load(std::memory_order_acquire);
        if (strcmp(p.name, name) == 0) { p.n += n; return; }
    }
}
void Ctx::step(uint64_t n) { cur->steps += n; }
static bool insertSet(std::atomic<uint64_t>* set, uint64_t h) {
    if (h == 0) h = 1;
    const uint64_t mask = (1ULL << SETBITS) - 1;
    uint64_t i = (h * 0x9E3779B97F4A7C15ULL) >> (64 - SETBITS);
    for (int k = 0; k < 64; k++, i = (i + 1) & mask) {
        uint64_t v = set[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (v == 0) {
            uint64_t e = 0;
            if (set[i].compare_exchange_strong(e, h)) return true;
            if (e == h) return false;
        }
    }
    return false; // set saturated: undercount
}
void Ctx::state(uint64_t h) { if (counting && insertSet(S->states, h)) S->distinctState++; }
void Ctx::nontrivial(uint64_t sig) { cur->nontrivial = 1; cur->sig = mix64(cur->sig, sig); }
bool Ctx::thorough() const { return isThorough; }
uint64_t Ctx::hash() const { return cur->hash; }

static void rmTree(const std::string& d) {
    DIR* dir = opendir(d.c_str());
    if (dir) {
        while (dirent* e = readdir(dir)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string p = d + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); rmTree(p); }
            else unlink(p.c_str());
        }
        closedir(dir);
    }
    rmdir(d.c_str());
}
void enterScratch(Ctx&) {
    if (scratchDir.empty()) {
        scratchDir = scratchBase + "/r" + std::to_string(getpid());
        rmTree(scratchDir);
        if (mkdir(scratchDir.c_str(), 0700) != 0 || chdir(scratchDir.c_str()) != 0) {
            fprintf(stderr, "SIM: cannot create the scratch directory\n");
            _exit(99);
        }
    }
}

[[noreturn]] static void endRun(int code) {
    _exit(code);
}
void Ctx::violate(const char* cls, const char* fmt, ...) {
    snprintf(cur->cls, sizeof cur->cls, "%s", cls);
    va_list ap; va_start(ap, fmt);
    vsnprintf(cur->msg, sizeof cur->msg, fmt, ap);
    va_end(ap);
    cur->hash = hashBytes(cls, strlen(cls), cur->hash);
    cur->outcome = 2;
    endRun(77);
}
void Ctx::discard() { cur->outcome = 3; endRun(78); }

[[noreturn]] static void childMain() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &tv, nullptr); // CPU time: a busy hang
    alarm(300);                           // wall time: a blocked run
    simChildStart();
    Ctx c;
    running = true;
    try {
        simRun(c);
    } catch (const std::exception& e) {
        int st = 0;
        char* dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        std::string t = dn ? dn : typeid(e).name();
        c.violate(("unexpected-exception:" + t).c_str(), "the simulated run ended by an exception the property does not allow: %s", e.what());
    } catch (...) {
        c.violate("unexpected-exception:unknown", "the simulated run ended by an unknown exception");
    }
    cur->outcome = 1;
    endRun(0);
}

struct Result {
    int kind; // 1 ok, 2 violation, 3 discarded
    std::string cls, msg;
    uint64_t hash;
};

static std::string readErr() {
    std::string r;
    char b[4096];
    off_t off = 0;
    ssize_t k;
    while (r.size() < 60000 && (k = pread(errFd, b, sizeof b, off)) > 0) { r.append(b, k); off += k; }
    return r;
}

static Result runChild(Slot* slot, uint64_t seed, uint64_t run, const std::vector<uint32_t>* tape) {
    slot->runId = run;
    slot->hash = 0x51;
    slot->steps = 0;
    slot->outcome = 0;
    slot->ntape = 0;
    slot->nontrivial = 0;
    slot->overflow = 0;
    slot->sig = 0;
    slot->cls[0] = slot->msg[0] = 0;
    slot->traceLen = 0;
    replaying = tape != nullptr;
    rtape = tape ? tape->data() : nullptr;
    rtapeN = tape ? tape->size() : 0;
    if (!tape) seedRng(seed, run);
    cur = slot;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) {
        if (errFd >= 0) { dup2(errFd, 2); if (!tracing) dup2(errFd, 1); }
        childMain();
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r;
    r.hash = slot->hash;
    // remove what the run left in its scratch directory
    {
        std::string d = scratchBase + "/r" + std::to_string(pid);
        struct stat sb;
        if (lstat(d.c_str(), &sb) == 0) rmTree(d);
    }
    std::string err;
    off_t esz = lseek(errFd, 0, SEEK_END);
    if (slot->outcome == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) r.kind = 1;
    else if (slot->outcome == 3) r.kind = 3;
    else if (slot->outcome == 2) { r.kind = 2; r.cls = slot->cls; r.msg = slot->msg; }
    else {
        r.kind = 2;
        err = esz > 0 ? readErr() : std::string();
        size_t p;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { r.cls = "stalled"; r.msg = "the run made no progress"; }
        else if ((p = err.find("ERROR: AddressSanitizer: ")) != err.npos) {
            std::string k = err.substr(p + 25, 60);
            k = k.substr(0, k.find_first_of(" \n:"));
            r.cls = "memory-error:" + k;
            r.msg = err.substr(p, 3000);
        } else if ((p = err.find("runtime error: ")) != err.npos) {
            size_t b = err.rfind('\n', p);
            b = b == err.npos ? 0 : b + 1;
            std::string line = err.substr(b, err.find('\n', p) - b);
            r.cls = "undefined-behaviour";
            r.msg = line;
        } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
            r.cls = "hang"; r.msg = "the run did not finish within 20 s of CPU time";
        } else if (WIFSIGNALED(st)) {
            r.cls = "signal:" + std::to_string(WTERMSIG(st));
            r.msg = std::string("the process was ended by signal ") + strsignal(WTERMSIG(st)) + ": " + err.substr(0, 1500);
        } else {
            r.cls = "process-exit:" + std::to_string(WEXITSTATUS(st));
            r.msg = "the library ended the process: " + err.substr(0, 1500);
        }
        snprintf(slot->cls, sizeof slot->cls, "%s", r.cls.c_str());
        snprintf(slot->msg, sizeof slot->msg, "%s", r.msg.c_str());
        r.hash = mix64(r.hash, hashStr(r.cls));
    }
    if (esz > 0) { if (ftruncate(errFd, 0)) {} lseek(errFd, 0, SEEK_SET); }
    return r;
}

static Slot* newSlot() {
    void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return static_cast<Slot*>(p);
}
static int newErr() {
    int fd = memfd_create("simerr", 0);
    if (fd < 0) { perror("memfd"); _exit(2); }
    return fd;
}
static double nowS() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static std::vector<uint32_t> slotTape(const Slot* s) { return std::vector<uint32_t>(s->tape, s->tape + s->ntape); }

static std::string jsonStr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"') r += "\\\""; else if (ch == '\\') r += "\\\\"; else if (ch == '\n') r += "\\n"; else if (ch == '\t') r += "\\t";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r + "\"";
}

/// worker: runs until told to stop
[[noreturn]] static void worker(uint64_t seed, uint64_t maxRuns, double deadline) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    errFd = newErr();
    Slot* slot = newSlot();
    while (!S->stop.load()) {
        uint64_t run = S->nextRun++;
        if (run >= maxRuns || nowS() > deadline) break;
        tracing = run < 4;
        Result r = runChild(slot, seed, run, nullptr);
        if (run < 4) {
            uint32_t k = std::min<uint32_t>(slot->traceLen, sizeof S->sample[0] - 1);
            memcpy(S->sample[run], slot->trace, k);
            S->sampleLen[run] = k;
        }
        tracing = false;
        S->done++;
        S->digest += mix64(run, r.hash);
        S->steps += slot->steps;
        S->choices += slot->ntape;
        uint64_t m = S->maxTape.load();
        while (slot->ntape > m && !S->maxTape.compare_exchange_weak(m, slot->ntape)) {}
        if (r.kind == 2) {
            uint64_t e = 0;
            S->badRun.compare_exchange_strong(e, run + 1);
            S->stop = 1;
            break;
        }
        if (r.kind == 3) { S->discarded++; continue; }
        if (slot->nontrivial) {
            S->nontrivialRuns++;
            if (insertSet(S->sigs, slot->sig)) S->distinctSig++;
        }
        // continuous determinism check: every 97th run is executed twice
        if (run % 97 == 5) {
            counting = false;
            Result r2 = runChild(slot, seed, run, nullptr);
            counting = true;
            S->recheck++;
            if (r2.kind != r.kind || r2.hash != r.hash) { S->mismatch++; S->mismatchRun = run; S->stop = 1; }
        }
    }
    _exit(0);
}

static std::vector<uint32_t> minimise(Slot* slot, std::vector<uint32_t> t, const std::string& cls, double budget, unsigned& tries) {
    double end = nowS() + budget;
    auto fails = [&](const std::vector<uint32_t>& c) {
        tries++;
        Result r = runChild(slot, 0, 0, &c);
        return r.kind == 2 && r.cls == cls;
    };
    // a value beyond the end of the tape is 0
    auto strip = [](std::vector<uint32_t>& v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
    strip(t);
    bool progress = true;
    while (progress && nowS() < end) {
        progress = false;
        // truncate
        for (size_t k = t.size() / 2; k >= 1 && nowS() < end; k /= 2) {
            while (t.size() >= k && nowS() < end) {
                std::vector<uint32_t> c(t.begin(), t.end() - k);
                strip(c);
                if (c.size() < t.size() && fails(c)) { t = c; progress = true; } else break;
            }
        }
        // delete chunks
        for (size_t k = std::max<size_t>(1, t.size() / 2); k >= 1 && nowS() < end; k /= 2) {
            for (size_t i = 0; i + k <= t.size() && nowS() < end;) {
                std::vector<uint32_t> c(t);
                c.erase(c.begin() + i, c.begin() + i + k);
                strip(c);
                if (fails(c)) { t = c; progress = true; } else i += k;
            }
            if (k == 1) break;
        }
        // zero chunks
        for (size_t k = std::max<size_t>(1, t.size() / 2); k >= 1 && nowS() < end; k /= 2) {
            for (size_t i = 0; i + k <= t.size() && nowS() < end; i += k) {
                bool any = false;
                for (size_t j = i; j < i + k; j++) any |= t[j] != 0;
                if (!any) continue;
                std::vector<uint32_t> c(t);
                std::fill(c.begin() + i, c.begin() + i + k, 0);
                strip(c);
                if (fails(c)) { t = c; progress = true; if (i >= t.size()) break; }
            }
            if (k == 1) break;
        }
        // lower single values
        for (size_t i = 0; i < t.size() && nowS() < end; i++) {
            uint32_t lo = 0, hi = t[i];
            while (lo < hi && nowS() < end) {
                uint32_t mid = lo + (hi - lo) / 2;
                std::vector<uint32_t> c(t);
                c[i] = mid;
                strip(c);
                if (fails(c)) { hi = mid; } else lo = mid + 1;
            }
            if (i < t.size() && hi < t[i]) { t[i] = hi; progress = true; strip(t); }
        }
    }
    return t;
}

static std::string opt(int argc, char** argv, const char* name, const char* def) {
    for (int i = 2; i + 1 < argc; i++) if (strcmp(argv[i], name) == 0) return argv[i + 1];
    return def;
}

static bool loadReplay(const char* path, std::vector<uint32_t>& tape, std::string& cls, uint64_t& hash) {
    std::ifstream f(path);
    if (!f) return false;
    std::string line;
    while (std::getline(f, line)) {
        if (line.compare(0, 6, "class ") == 0) cls = line.substr(6);
        else if (line.compare(0, 5, "hash ") == 0) hash = strtoull(line.c_str() + 5, nullptr, 16);
        else if (line.compare(0, 7, "choice ") == 0) tape.push_back(strtoul(line.c_str() + 7, nullptr, 10));
    }
    return true;
}

static int cmdReplay(int argc, char** argv) {
    std::vector<uint32_t> tape;
    std::string cls;
    uint64_t hash = 0;
    if (argc < 3 || !loadReplay(argv[2], tape, cls, hash)) { fprintf(stderr, "cannot read the replay file\n"); return 2; }
    bool quiet = argc > 3 && strcmp(argv[3], "-q") == 0;
    Slot* slot = newSlot();
    errFd = newErr();
    tracing = true;
    counting = false;
    Result r = runChild(slot, 0, 0, &tape);
    if (!quiet) { fwrite(slot->trace, 1, slot->traceLen, stdout); printf("\n"); }
    if (r.kind == 2) {
        printf("REPRODUCED class=%s hash=%016llx\n", r.cls.c_str(), (unsigned long long)r.hash);
        if (!quiet) printf("%s\n", r.msg.c_str());
        return (r.cls == cls && (hash == 0 || r.hash == hash)) ? 1 : 3;
    }
    printf("NOT-REPRODUCED\n");
    return 0;
}

static int cmdSearch(int argc, char** argv) {
    uint64_t seed = strtoull(opt(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    isThorough = opt(argc, argv, "--tier", "quick") == "thorough";
    double seconds = atof(opt(argc, argv, "--seconds", "240").c_str());
    int jobs = atoi(opt(argc, argv, "--jobs", "8").c_str());
    uint64_t maxRuns = strtoull(opt(argc, argv, "--runs", "0").c_str(), nullptr, 10);
    if (!maxRuns) maxRuns = isThorough ? simHarness.thorough_runs : simHarness.quick_runs;
    std::string out = opt(argc, argv, "--out", "");
    std::string replay = opt(argc, argv, "--replay", "");
    double t0 = nowS();
    printf("seed %llu\n", (unsigned long long)seed);
    fflush(stdout);
    std::vector<pid_t> pids;
    for (int i = 0; i < jobs; i++) {
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (p == 0) worker(seed, maxRuns, t0 + seconds);
        pids.push_back(p);
    }
    for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
    double searchS = nowS() - t0;
    int rc = 0;
    uint64_t violations = 0;
    std::string note;
    if (S->mismatch.load()) {
        fprintf(stderr, "ERROR: run %llu is not repeatable (nondeterminism in the simulator)\n", (unsigned long long)S->mismatchRun.load());
        rc = 2;
    }
    if (S->badRun.load()) {
        uint64_t run = S->badRun.load() - 1;
        counting = false;
        Slot* slot = newSlot();
        errFd = newErr();
        Result a = runChild(slot, seed, run, nullptr);
        std::vector<uint32_t> tape = slotTape(slot);
        Result b = runChild(slot, seed, run, nullptr);
        if (a.kind != 2 || b.kind != 2 || a.cls != b.cls || a.hash != b.hash) {
            fprintf(stderr, "ERROR: run %llu reported a violation that does not repeat (%s/%s)\n", (unsigned long long)run, a.cls.c_str(), b.cls.c_str());
            rc = 2;
        } else {
            unsigned tries = 0;
            size_t origLen = tape.size();
            std::vector<uint32_t> m = minimise(slot, tape, a.cls, isThorough ? 180 : 60, tries);
            tracing = true;
            Result f = runChild(slot, 0, 0, &m);
            if (f.kind != 2 || f.cls != a.cls) { m = tape; f = runChild(slot, 0, 0, &m); }
            std::ofstream o(replay);
            o << "# replay file: " << argv[0] << " replay <this file>\n";
            o << "property " << simHarness.property << "\nseed " << seed << "\nrun " << run << "\n";
            o << "class " << f.cls << "\n";
            char hx[32]; snprintf(hx, sizeof hx, "%016llx", (unsigned long long)f.hash);
            o << "hash " << hx << "\n";
            o << "# minimised from " << origLen << " to " << m.size() << " choices in " << tries << " executions\n";
            for (size_t i = 0; i < m.size(); i++) {
                o << "choice " << m[i];
                if (i < slot->ntape) o << " # of " << slot->tapeN[i] << " " << (slot->label[i] ? slot->label[i] : "");
                o << "\n";
            }
            o << "# ---- schedule, faults and history of the minimised run ----\n";
            std::istringstream tr(std::string(slot->trace, slot->traceLen));
            std::string line;
            while (std::getline(tr, line)) o << "# " << line << "\n";
            o << "# ---- violation ----\n";
            std::istringstream ms(f.msg);
            while (std::getline(ms, line)) o << "# " << line << "\n";
            o.close();
            // fresh process, twice
            auto fresh = [&](std::string* said) {
                int fd[2];
                if (pipe(fd)) return 2;
                pid_t p = fork();
                if (p == 0) {
                    dup2(fd[1], 1);
                    close(fd[0]); close(fd[1]);
                    execl("/proc/self/exe", argv[0], "replay", replay.c_str(), "-q", (char*)nullptr);
                    _exit(2);
                }
                close(fd[1]);
                char b[4096];
                ssize_t n;
                while ((n = read(fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (said && n > 0) said->append(b, n);
                close(fd[0]);
                int st = 0;
                waitpid(p, &st, 0);
                return WIFEXITED(st) ? WEXITSTATUS(st) : 2;
            };
            std::string said;
            bool ok = fresh(&said) == 1;
            if (!ok && said.find("REPRODUCED class=" + f.cls + " hash=") == 0) {
                // the state of this process differs from that of a fresh one: the file describes the fresh one
                size_t at = said.find(" hash=") + 6;
                std::string h = said.substr(at, 16), t;
                { std::ifstream in(replay); std::ostringstream all; all << in.rdbuf(); t = all.str(); }
                size_t q = t.find("\nhash ");
                if (q != t.npos && h.size() == 16) { t.replace(q + 6, 16, h); std::ofstream(replay) << t; }
                ok = fresh(nullptr) == 1;
            }
            ok = ok && fresh(nullptr) == 1;
            if (!ok) {
                fprintf(stderr, "ERROR: the replay of %s in a fresh process does not reproduce %s\n", replay.c_str(), f.cls.c_str());
                rc = 2;
            } else {
                rc = 1;
                violations = 1;
                printf("%s: %s\n", f.cls.c_str(), f.msg.substr(0, 1500).c_str());
                printf("VIOLATION property=%s replay=%s\n", simHarness.property, replay.c_str());
            }
        }
    }
    double wall = nowS() - t0;
    if (!out.empty()) {
        std::ofstream o(out);
        uint64_t done = S->done.load();
        o << "{\n\"property\": \"" << simHarness.property << "\",\n\"tier\": \"" << (isThorough ? "thorough" : "quick")
          << "\",\n\"seed\": " << seed << ",\n\"level\": \"" << simHarness.level << "\",\n\"coverage\": {\n";
        o << " \"evaluations\": " << done << ",\n \"distinct_nontrivial\": " << S->distinctSig.load()
          << ",\n \"rule\": " << jsonStr(simHarness.rule) << ",\n";
        o << " \"nontrivial_runs\": " << S->nontrivialRuns.load() << ",\n \"discarded_runs\": " << S->discarded.load() << ",\n";
        o << " \"distinct_states\": " << S->distinctState.load() << ",\n";
        char dg[32];
        snprintf(dg, sizeof dg, "%016llx", (unsigned long long)S->digest.load());
        o << " \"digest_of_histories\": \"" << dg << "\",\n";
        o << " \"simulated_steps\": " << S->steps.load() << ",\n \"step_unit\": " << jsonStr(simHarness.step_unit) << ",\n";
        o << " \"scheduler_choices\": " << S->choices.load() << ",\n \"max_choices_per_run\": " << S->maxTape.load() << ",\n";
        o << " \"runs_per_hour\": " << (uint64_t)(searchS > 0 ? done / searchS * 3600 : 0)
          << ",\n \"seeds_per_hour\": " << (uint64_t)(searchS > 0 ? done / searchS * 3600 : 0) << ",\n";
        o << " \"runs_executed_twice_and_compared\": " << S->recheck.load() << ",\n";
        o << " \"faults_and_probes\": {";
        bool first = true;
        std::map<std::string, uint64_t> ps;
        for (uint32_t i = 0; i < NPROBE; i++) if (S->probe[i].used.load() == 2) ps[S->probe[i].name] += S->probe[i].n.load();
        for (auto& p : ps) { o << (first ? "\n  " : ",\n  ") << jsonStr(p.first) << ": " << p.second; first = false; }
        o << "\n },\n \"real_components\": " << jsonStr(simHarness.real) << ",\n \"stub_components\": " << jsonStr(simHarness.stub) << ",\n";
        o << " \"samples\": [";
        first = true;
        for (int i = 0; i < 4; i++) if (S->sampleLen[i]) {
            o << (first ? "\n  " : ",\n  ") << jsonStr("run " + std::to_string(i) + " of seed " + std::to_string(seed) + ":\n" + std::string(S->sample[i], S->sampleLen[i]).substr(0, 1800));
            first = false;
        }
        o << "\n ]\n},\n\"assumptions\": [";
        first = true;
        std::istringstream as(simHarness.assumptions);
        std::string a;
        while (std::getline(as, a, '|')) { o << (first ? "" : ", ") << jsonStr(a); first = false; }
        o << "],\n\"wall_s\": " << wall << ",\n\"violations\": " << violations << "\n}\n";
    }
    printf("%s: %llu runs (%llu distinct non-trivial) in %.1f s, histories %016llx, exit %d\n", simHarness.property, (unsigned long long)S->done.load(),
           (unsigned long long)S->distinctSig.load(), searchS, (unsigned long long)S->digest.load(), rc);
    return rc;
}

} // namespace sim

__attribute__((weak)) void simChildStart() {}

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=86:allocator_may_return_null=1:handle_abort=1:alloc_dealloc_mismatch=0:"
           "detect_stack_use_after_return=0:symbolize=0:new_delete_type_mismatch=0:max_malloc_fill_size=65536:malloc_fill_byte=190:"
           "detect_odr_violation=0:print_legend=0:print_full_thread_history=0:quarantine_size_mb=4";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=87:halt_on_error=1"; }

/// The C++ library fills some tables when they are first used; do it before the first run is started.
static void warmUp() {
    auto& ct = std::use_facet<std::ctype<char>>(std::locale());
    char in[256], out[256];
    for (int i = 0; i < 256; i++) { in[i] = (char)i; ct.widen((char)i); for (char d : {'\0', '?', '*'}) ct.narrow((char)i, d); }
    ct.widen(in, in + 256, out);
    ct.narrow(in, in + 256, '*', out);
    std::ostringstream o;
    o << 1 << " " << 2.5 << " " << true << std::boolalpha << true << std::hex << 255u << std::endl;
    std::istringstream i("1 2.5 x");
    int a; double b; std::string c;
    i >> a >> b >> c;
    std::getline(i, c);
}
int main(int argc, char** argv) {
    using namespace sim;
    // the address space layout must not influence the runs
    if (!getenv("SIM_NO_REEXEC")) {
        setenv("SIM_NO_REEXEC", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    warmUp();
    signal(SIGXFSZ, SIG_IGN);
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    const char* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    char tmpl[64];
    snprintf(tmpl, sizeof tmpl, "%s/simXXXXXX", base);
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    scratchBase = tmpl;
    int rc;
    if (argc > 1 && strcmp(argv[1], "replay") == 0) rc = cmdReplay(argc, argv);
    else if (argc > 1 && strcmp(argv[1], "search") == 0) rc = cmdSearch(argc, argv);
    else {
        fprintf(stderr, "usage: %s search --seed N --tier quick|thorough --runs N --seconds S --jobs J --out evidence.json --replay file\n       %s replay file\n", argv[0], argv[0]);
        rc = 2;
    }
    rmTree(scratchBase);
    fflush(stdout);
    return rc;
}
