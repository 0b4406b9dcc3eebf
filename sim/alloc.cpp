#include "alloc.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <malloc.h>
#include <atomic>

namespace {
bool armed = false, persist = false;
std::atomic<uint64_t> cnt{0};
uint64_t failAt = 0, firedN = 0;
std::atomic<long> blocks{0}, bytes{0};
std::atomic<size_t> maxBlock{(size_t)512 << 20};
std::atomic<uint64_t> hits{0};
bool wordFill = false;
unsigned char fb = 0xA5;
uint64_t fw = 0;

void* get(size_t n, size_t al) {
    if (n == 0) n = 1;
    if (n > maxBlock.load(std::memory_order_relaxed)) { hits++; return nullptr; }
    if (armed) {
        uint64_t k = ++cnt;
        if (failAt && (k == failAt || (persist && k > failAt))) { firedN++; return nullptr; }
    }
    void* p = al <= 16 ? malloc(n) : aligned_alloc(al, (n + al - 1) / al * al);
    if (!p) return nullptr;
    if (wordFill) {
        size_t k = n / 8;
        for (size_t i = 0; i < k; i++) memcpy(static_cast<char*>(p) + 8 * i, &fw, 8);
        memset(static_cast<char*>(p) + 8 * k, 0x5A, n - 8 * k);
    } else memset(p, fb, n);
    blocks.fetch_add(1, std::memory_order_relaxed);
    bytes.fetch_add((long)malloc_usable_size(p), std::memory_order_relaxed);
    return p;
}
void put(void* p) {
    if (!p) return;
    blocks.fetch_sub(1, std::memory_order_relaxed);
    bytes.fetch_sub((long)malloc_usable_size(p), std::memory_order_relaxed);
    free(p);
}
}
namespace sim {
void Alloc::arm(uint64_t f, bool p) { cnt = 0; firedN = 0; failAt = f; persist = p; armed = true; }
void Alloc::disarm() { armed = false; }
uint64_t Alloc::count() { return cnt; }
uint64_t Alloc::fired() { return firedN; }
long Alloc::liveBlocks() { return blocks; }
long Alloc::liveBytes() { return bytes; }
void Alloc::limit(size_t b) { maxBlock = b; }
uint64_t Alloc::limitHits() { return hits; }
void Alloc::fillByte(unsigned char b) { wordFill = false; fb = b; }
void Alloc::fillWord(uint64_t w) { wordFill = true; fw = w; }
}
void* operator new(size_t n) { void* p = get(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 0); }
void* operator new(size_t n, std::align_val_t a) { void* p = get(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = get(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
