#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "fileio.h"
#include <cstring>
#include <cstdarg>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <locale>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
FilePlan FileSim::plan;
bool FileSim::armed = false;
uint64_t FileSim::opens, FileSim::reads, FileSim::writes, FileSim::bytesWritten, FileSim::firedOpen, FileSim::firedRead, FileSim::firedWrite,
    FileSim::firedFull, FileSim::firedShortR, FileSim::firedShortW, FileSim::firedEintr, FileSim::firedSeek, FileSim::firedClose;
static unsigned char tracked[1024];
static uint64_t ioCalls, seekCalls;
static uint64_t openCount;
static bool lastWasEintr = false;

// The locale a program may have chosen; the C library keeps its own, so the simulator is not affected.
struct Punct : std::numpunct<char> {
    char sep, point; bool words; std::string group;
    Punct(char s, char p, const char* g, bool w) : sep(s), point(p), words(w), group(g) {}
    char do_thousands_sep() const override { return sep; }
    char do_decimal_point() const override { return point; }
    std::string do_grouping() const override { return group; }
    std::string do_truename() const override { return words ? "wahr" : "true"; }
    std::string do_falsename() const override { return words ? "falsch" : "false"; }
};
const char* FileSim::localeName(int k) { static const char* n[] = {"classic", "1.234,5", "1,234.5", "1 23 45,6"}; return n[k]; }
static void useLocale(int kind) {
    static const std::locale all[FileSim::locales] = {std::locale::classic(), std::locale(std::locale::classic(), new Punct('.', ',', "\3", true)),
        std::locale(std::locale::classic(), new Punct(',', '.', "\3", false)), std::locale(std::locale::classic(), new Punct(' ', ',', "\1\2", true))};
    static int current = 0;
    if (current != kind) { std::locale::global(all[kind]); current = kind; }
}
void FileSim::arm(const FilePlan& p) {
    useLocale(p.locale);
    plan = p;
    opens = reads = writes = bytesWritten = firedOpen = firedRead = firedWrite = firedFull = firedShortR = firedShortW = firedEintr = firedSeek = firedClose = 0;
    ioCalls = seekCalls = 0;
    lastWasEintr = false;
    armed = true;
}
void FileSim::disarm() { armed = false; useLocale(0); }
uint64_t FileSim::openFds() { return openCount; }
void FileSim::report(Ctx& c) {
    if (plan.locale) c.probe("global locale that changes numbers");
    if (firedOpen) c.probe("open fails", firedOpen);
    if (firedRead) c.probe("read fails (EIO)", firedRead);
    if (firedWrite) c.probe("write fails (EIO)", firedWrite);
    if (firedFull) c.probe("disk full (ENOSPC after a torn write)", firedFull);
    if (firedShortR) c.probe("short reads", firedShortR);
    if (firedShortW) c.probe("short writes", firedShortW);
    if (firedEintr) c.probe("interrupted system calls (EINTR)", firedEintr);
    if (firedSeek) c.probe("seek fails", firedSeek);
    if (firedClose) c.probe("close fails (EIO)", firedClose);
}
void FileSim::kernelLimit(uint64_t bytes) {
    struct rlimit rl;
    getrlimit(RLIMIT_FSIZE, &rl);
    rl.rlim_cur = bytes;
    setrlimit(RLIMIT_FSIZE, &rl);
}
void FileSim::kernelUnlimit() {
    struct rlimit rl;
    getrlimit(RLIMIT_FSIZE, &rl);
    rl.rlim_cur = rl.rlim_max;
    setrlimit(RLIMIT_FSIZE, &rl);
}
bool writeFile(const char* name, const std::string& content) {
    int fd = syscall(SYS_openat, AT_FDCWD, name, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) return false;
    size_t o = 0;
    while (o < content.size()) {
        long k = syscall(SYS_write, fd, content.data() + o, content.size() - o);
        if (k <= 0) break;
        o += k;
    }
    syscall(SYS_close, fd);
    return o == content.size();
}
bool readFile(const char* name, std::string& content) {
    content.clear();
    int fd = syscall(SYS_openat, AT_FDCWD, name, O_RDONLY, 0);
    if (fd < 0) return false;
    char b[65536];
    long k;
    while ((k = syscall(SYS_read, fd, b, sizeof b)) > 0) content.append(b, k);
    syscall(SYS_close, fd);
    return k == 0;
}
static bool isTracked(int fd) { return fd >= 0 && fd < 1024 && tracked[fd]; }
static bool scratchName(const char* p) { return p && p[0] != '/' && p[0] != 0; }
static bool failOpen() {
    FileSim::opens++;
    if (FileSim::plan.failOpenNth && FileSim::opens == FileSim::plan.failOpenNth) {
        FileSim::firedOpen++;
        errno = FileSim::plan.openErrno ? FileSim::plan.openErrno : EMFILE;
        return true;
    }
    return false;
}
static void track(int fd) { if (fd >= 0 && fd < 1024 && !tracked[fd]) { tracked[fd] = 1; openCount++; } }
static void untrack(int fd) { if (isTracked(fd)) { tracked[fd] = 0; openCount--; } }
static bool eintr() {
    if (!FileSim::plan.eintrEvery) return false;
    ioCalls++;
    if (!lastWasEintr && ioCalls % FileSim::plan.eintrEvery == 0) { lastWasEintr = true; FileSim::firedEintr++; errno = EINTR; return true; }
    lastWasEintr = false;
    return false;
}
static ssize_t simRead(int fd, void* b, size_t n) {
    if (FileSim::armed && isTracked(fd)) {
        if (eintr()) return -1;
        FileSim::reads++;
        if (FileSim::plan.failReadNth && FileSim::reads >= FileSim::plan.failReadNth) { FileSim::firedRead++; errno = FileSim::plan.readErrno; return -1; }
        if (FileSim::plan.shortReadMax && n > FileSim::plan.shortReadMax) { n = FileSim::plan.shortReadMax; FileSim::firedShortR++; }
    }
    return syscall(SYS_read, fd, b, n);
}
static ssize_t simWrite(int fd, const void* b, size_t n) {
    if (FileSim::armed && isTracked(fd)) {
        if (eintr()) return -1;
        FileSim::writes++;
        FilePlan& p = FileSim::plan;
        if (p.failWriteNth && (p.writeTransient ? FileSim::writes == p.failWriteNth : FileSim::writes >= p.failWriteNth)) {
            FileSim::firedWrite++; errno = p.writeErrno; return -1;
        }
        if (p.shortWriteMax && n > p.shortWriteMax) { n = p.shortWriteMax; FileSim::firedShortW++; }
        if (FileSim::bytesWritten + n > p.diskFullAfter) {
            FileSim::firedFull++;
            size_t room = p.diskFullAfter - FileSim::bytesWritten;
            if (room == 0) { errno = ENOSPC; return -1; }
            n = room;
        }
        long k = syscall(SYS_write, fd, b, n);
        if (k > 0) FileSim::bytesWritten += k;
        return k;
    }
    return syscall(SYS_write, fd, b, n);
}
} // namespace sim

using namespace sim;
extern "C" {
FILE* fopen(const char* path, const char* mode) {
    static FILE* (*real)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
    bool s = scratchName(path);
    if (s && FileSim::armed && failOpen()) return nullptr;
    FILE* f = real(path, mode);
    if (f && s) track(fileno(f));
    return f;
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
int fclose(FILE* f) {
    static int (*real)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    int fd = f ? fileno(f) : -1;
    bool s = isTracked(fd);
    untrack(fd);
    int r = real(f);
    if (s && FileSim::armed && FileSim::plan.closeFails) { FileSim::firedClose++; errno = EIO; return EOF; }
    return r;
}
int open(const char* path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    bool s = scratchName(path);
    if (s && FileSim::armed && failOpen()) return -1;
    int fd = syscall(SYS_openat, AT_FDCWD, path, flags, m);
    if (fd >= 0 && s) track(fd);
    return fd;
}
int open64(const char* path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return open(path, flags, m);
}
int close(int fd) {
    bool s = isTracked(fd);
    untrack(fd);
    int r = syscall(SYS_close, fd);
    if (s && FileSim::armed && FileSim::plan.closeFails) { FileSim::firedClose++; errno = EIO; return -1; }
    return r;
}
ssize_t read(int fd, void* b, size_t n) { return simRead(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { return simWrite(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int n) {
    if (!isTracked(fd) || !FileSim::armed) return syscall(SYS_writev, fd, v, n);
    char all[32768]; // a longer write is a short one
    size_t k = 0;
    for (int i = 0; i < n; i++) {
        size_t part = v[i].iov_len < sizeof all - k ? v[i].iov_len : sizeof all - k;
        memcpy(all + k, v[i].iov_base, part);
        k += part;
    }
    return simWrite(fd, all, k);
}
off_t lseek(int fd, off_t o, int w) {
    if (FileSim::armed && isTracked(fd)) {
        if (FileSim::plan.failSeekNth && ++seekCalls == FileSim::plan.failSeekNth) { FileSim::firedSeek++; errno = EIO; return -1; }
    }
    return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
}
