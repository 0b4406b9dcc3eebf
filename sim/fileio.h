// Simulated disk: faults on the system calls behind file streams.
// Applies to files opened by a relative path (the run's scratch directory).
#ifndef VERIF_SIM_FILEIO_H
#define VERIF_SIM_FILEIO_H
#include "sim.h"
#include <cerrno>
namespace sim {
struct FilePlan {
    uint64_t failOpenNth = 0;      int openErrno = 0;       // n-th open fails
    uint64_t failReadNth = 0;      int readErrno = EIO;     // n-th read fails (and all later ones)
    uint64_t failWriteNth = 0;     int writeErrno = EIO;    // n-th write fails (and all later ones)
    bool writeTransient = false;                            // ... only that one
    uint64_t diskFullAfter = ~0ULL;                         // bytes accepted before ENOSPC (torn write first)
    uint64_t shortReadMax = 0;                              // reads return at most this many bytes
    uint64_t shortWriteMax = 0;                             // writes accept at most this many bytes
    uint64_t eintrEvery = 0;                                // every n-th read/write is interrupted first
    uint64_t failSeekNth = 0;
    int locale = 0;                                         // global locale of the program while armed
    bool closeFails = false;                                // close reports EIO (data not durable)
};
struct FileSim {
    static FilePlan plan;
    static bool armed;
    static void arm(const FilePlan& p);
    static void disarm();
    static const char* localeName(int kind);
    static const int locales = 4;
    // what fired since arm
    static uint64_t opens, reads, writes, bytesWritten;
    static uint64_t firedOpen, firedRead, firedWrite, firedFull, firedShortR, firedShortW, firedEintr, firedSeek, firedClose;
    static uint64_t openFds();   // descriptors of scratch files currently open
    static void report(Ctx& c);  // count what fired as probes
    /// A hard limit of file size enforced by the kernel (independent of how the code writes).
    static void kernelLimit(uint64_t bytes);
    static void kernelUnlimit();
};
bool writeFile(const char* name, const std::string& content);   // not subject to faults
bool readFile(const char* name, std::string& content);
}
#endif
