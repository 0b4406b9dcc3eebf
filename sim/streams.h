// Simulated streams: the source and the sink of every byte decided by the tape.
#ifndef VERIF_SIM_STREAMS_H
#define VERIF_SIM_STREAMS_H
#include "sim.h"
#include <streambuf>
#include <string>
#include <stdexcept>
#include <algorithm>
#include <cstring>

namespace sim {

struct SimIoError : std::runtime_error {
    SimIoError() : std::runtime_error("simulated I/O error") {}
};

/// Input delivered in chunks, optionally ending early (truncation) or failing (EIO).
class SimIn : public std::streambuf {
public:
    static const size_t npos = static_cast<size_t>(-1);
    std::string data;
    size_t eofAt = npos;     // bytes at and after this offset do not exist
    size_t errAt = npos;     // reading the byte at this offset fails
    size_t chunk = 0;        // 0: everything at once; else pseudo-random chunks of up to this size
    uint64_t chunkSeed = 1;
    bool seekable = true;
    size_t eofSeen = 0, errSeen = 0, refills = 0;
    size_t maxServed = 0;

    explicit SimIn(std::string d) : data(std::move(d)) { setg(nullptr, nullptr, nullptr); }

protected:
    size_t base = 0;  // offset of eback()
    size_t posNow() const { return base + (gptr() - eback()); }
    size_t limit() const { return std::min(eofAt, data.size()); }
    void place(size_t pos) { base = pos; char* p = &data[0] + pos; setg(p, p, p); }
    int_type underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        size_t pos = posNow();
        size_t end = limit();
        if (pos >= errAt && errAt <= end) { errSeen++; throw SimIoError(); }
        if (pos >= end) { eofSeen++; return traits_type::eof(); }
        if (errAt < end) end = errAt;
        size_t n = end - pos;
        if (chunk) {
            chunkSeed = chunkSeed * 6364136223846793005ULL + 1442695040888963407ULL;
            n = std::min<size_t>(n, 1 + (chunkSeed >> 33) % chunk);
        }
        refills++;
        char* p = &data[0] + pos;
        base = pos;
        setg(p, p, p + n);
        maxServed = std::max(maxServed, pos + n);
        return traits_type::to_int_type(*p);
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
        if (!seekable) return pos_type(off_type(-1));
        off_type b = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? off_type(posNow()) : off_type(limit());
        off_type t = b + off;
        if (t < 0 || t > off_type(limit())) return pos_type(off_type(-1));
        place(size_t(t));
        return pos_type(t);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};

/// Output that accepts bytes until a fault; remembers what really arrived.
class SimOut : public std::streambuf {
public:
    static const size_t npos = static_cast<size_t>(-1);
    std::string got;
    size_t failAt = npos;    // the byte at this offset is not accepted
    bool throwing = false;   // report the failure by an exception, else by eof()
    size_t buffer = 0;       // size of the put area (0 unbuffered)
    size_t failures = 0, flushes = 0;
    std::string area;
    bool down = false;
    bool once = false;       // the failure goes away: later bytes are accepted again

    void setBuffer(size_t n) { area.assign(n, '\0'); buffer = n; if (n) setp(&area[0], &area[0] + n); }
    void finish() { sync(); }

protected:
    bool accept(const char* s, size_t n) {
        if (down && once) { got.append(s, n); return true; }
        if (down) { failures++; return fail(); }
        size_t room = failAt == npos ? n : (failAt > got.size() ? failAt - got.size() : 0);
        if (n <= room) { got.append(s, n); return true; }
        got.append(s, room); // torn write
        down = true;
        failures++;
        return fail();
    }
    bool fail() { if (throwing) throw SimIoError(); return false; }
    int_type overflow(int_type ch) override {
        if (!drain()) return traits_type::eof();
        if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
        char cc = traits_type::to_char_type(ch);
        if (buffer) { *pptr() = cc; pbump(1); return ch; }
        return accept(&cc, 1) ? ch : traits_type::eof();
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        if (buffer) return std::streambuf::xsputn(s, n);
        size_t before = got.size();
        return accept(s, size_t(n)) ? n : std::streamsize(got.size() - before);
    }
    bool drain() {
        if (!buffer) return true;
        size_t n = size_t(pptr() - pbase());
        std::string t(pbase(), n);
        setp(&area[0], &area[0] + buffer);
        return n == 0 || accept(t.data(), n);
    }
    int sync() override { flushes++; return drain() ? 0 : -1; }
};

/// Draw a chunking of the input.
inline void drawChunks(Ctx& c, SimIn& in) {
    static const size_t sizes[] = {0, 1, 2, 3, 7, 16, 64, 512, 4096};
    in.chunk = sizes[c.pick(9, "chunk size")];
    in.chunkSeed = c.pick(1u << 16, "chunk seed") * 2654435761u + 12345;
    if (in.chunk) c.probe("short reads (chunked delivery)");
}

} // namespace sim
#endif
