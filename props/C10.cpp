// C10: the binary serializer is a sequence of values read in the order of writing.
#include "serial.h"
using namespace serial;

const sim::HarnessInfo simHarness = {
    "C10", "exploration",
    "a run performs a history of writes (single, variadic, streamed; 37 types), reads (into fresh and used targets, by value, streamed, variadic), resets, clears, copies, assignments and swaps of up to 3 serializers against a queue model with a read position, and checks every value read and the end of data; non-trivial: at least one value was read after a write that followed a read, or from a copy; distinct by the history of operations",
    "BinarySerializer, all Serializers, Traits, TraitsBinder",
    "none needed (no I/O in this property); the history is drawn by the simulator",
    "one operation",
    "values are read with the types they were written with|a read at the end of data starts again at the first value|moved-from serializers are cleared before use",
    60000, 2000000};

void simRun(Ctx& c) {
    struct One { BinarySerializer s; Model m; };
    std::vector<One> o(1);
    size_t ops = 2 + c.skew(40, "operations");
    uint64_t hist = 0;
    bool readSeen = false, interleaved = false, writtenAfterRead = false;
    for (size_t k = 0; k < ops; k++) {
        size_t w = c.pick(o.size(), "serializer");
        BinarySerializer& s = o[w].s;
        Model& m = o[w].m;
        int op = c.pick(12, "operation");
        if (op >= 4 && op <= 6 && m.v.empty()) op = 0;
        hist = sim::mix64(hist, op * 8 + w);
        switch (op) {
        case 0: case 1: case 2: {
            P v = genValue(c);
            v->write(s, c.pick(2, "how"));
            m.v.push_back(v);
            c.ev("%zu: write %s", w, v->name());
            hist = sim::mix64(hist, sim::hashStr(v->name()));
            if (readSeen) writtenAfterRead = true;
            break;
        }
        case 3: {
            P v = genValue(c), a(new Holder<int>(c, "int")), b(new Holder<std::string>(c, "string"));
            v->writeWith(s, static_cast<Holder<int>*>(a.get())->v, static_cast<Holder<std::string>*>(b.get())->v);
            m.v.push_back(a); m.v.push_back(v); m.v.push_back(b);
            c.ev("%zu: write int, %s, string", w, v->name());
            break;
        }
        case 4: case 5: case 6: {
            if (m.pos >= m.v.size()) m.pos = 0; // starts again
            // an int, a value and a string at once
            Holder<int>* a = m.pos + 2 < m.v.size() ? dynamic_cast<Holder<int>*>(m.v[m.pos].get()) : nullptr;
            Holder<std::string>* b = a ? dynamic_cast<Holder<std::string>*>(m.v[m.pos + 2].get()) : nullptr;
            bool ok;
            size_t at = m.pos;
            if (b && c.chance(1, 2, "variadic")) { ok = m.v[m.pos + 1]->readWith(c, s, a->v, b->v); m.pos += 3; c.ev("%zu: read 3 values at %zu", w, at); }
            else { ok = m.v[m.pos]->read(c, s, c.pick(3, "how")); m.pos++; c.ev("%zu: read %s at %zu", w, m.v[at]->name(), at); }
            if (!ok) c.violate("wrong-value", "value %zu of %zu (%s) read differs from the one written", at, m.v.size(), m.v[at]->name());
            readSeen = true;
            if (writtenAfterRead || w) interleaved = true;
            break;
        }
        case 7: s.resetIterator(); m.pos = 0; c.ev("%zu: reset", w); break;
        case 8: if (c.chance(1, 3, "clear")) { s.clear(); m = Model(); c.ev("%zu: clear", w); } break;
        case 9: {
            if (o.size() < 3) { o.push_back(o[w]); c.ev("%zu: copy of %zu", o.size() - 1, w); }
            else { size_t x = c.pick(o.size(), "target"); One t = o[w]; o[x] = t; c.ev("%zu: assigned from %zu", x, w); }
            break;
        }
        case 10: { size_t x = c.pick(o.size(), "other"); if (x != w) { One t(std::move(o[x])); o[x] = std::move(o[w]); o[w] = std::move(t); c.ev("%zu and %zu exchanged", w, x); } break; }
        case 11: {
            // the raw interface over the stored bytes
            std::vector<uint8_t> d = s.getData();
            std::vector<uint8_t>::const_iterator it = d.cbegin();
            for (size_t i = 0; i < m.v.size(); i++) {
                if (it == d.cend()) c.violate("wrong-data", "the stored bytes end after %zu of %zu values", i, m.v.size());
                if (!m.v[i]->readRaw(c, it)) c.violate("wrong-value", "value %zu (%s) differs in the stored bytes", i, m.v[i]->name());
            }
            if (it != d.cend()) c.violate("wrong-data", "%zd bytes are left after the last value", d.cend() - it);
            std::vector<uint8_t> e;
            for (auto& x : m.v) x->append(e);
            if (e != d) c.violate("wrong-data", "the same values appended to a byte container give other bytes");
            c.ev("%zu: raw read", w);
            break;
        }
        }
        c.step();
        BinarySerializer& z = o[w].s;
        if (z.isIteratorValid() != (o[w].m.pos < o[w].m.v.size())) c.violate("wrong-end", "serializer %zu with %zu values at position %zu says that the position is%s valid", w, o[w].m.v.size(), o[w].m.pos, z.isIteratorValid() ? "" : " not");
        c.state(sim::mix64(o[w].m.pos * 1000 + o[w].m.v.size(), op));
    }
    for (size_t w = 0; w < o.size(); w++) readAll(c, o[w].s, o[w].m, "at the end", "wrong-value");
    if (interleaved) c.nontrivial(hist);
}
