// Simulated allocator: decides which allocation fails, counts live blocks.
#ifndef VERIF_SIM_ALLOC_H
#define VERIF_SIM_ALLOC_H
#include <cstddef>
#include <cstdint>
namespace sim {
struct Alloc {
    /// Allocation number (1-based, counted since arm) that fails; 0 never.
    static void arm(uint64_t failAt, bool persistent);
    static void disarm();
    static uint64_t count();      // allocations since arm
    static uint64_t fired();      // failures injected since arm
    static long liveBlocks();
    static long liveBytes();
    /// Blocks bigger than this always fail (a finite memory).
    static void limit(size_t bytes);
    static uint64_t limitHits();
    /// What fresh memory contains (only in harnesses that link alloc.cpp): byte pattern or an 8 byte word.
    static void fillByte(unsigned char b);
    static void fillWord(uint64_t w);
};
}
#endif
