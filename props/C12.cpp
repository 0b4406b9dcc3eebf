// C12: a serializer operation that fails leaves the stored values intact.
// BUILD: alloc
#include "serial.h"
#include "alloc.h"
using namespace serial;

const sim::HarnessInfo simHarness = {
    "C12", "fault_enumeration",
    "a run performs a history of writes and reads; some of them fail: an allocation inside (any, once or persistently) or an exception of the written type thrown in the middle of a nested value; after each failure the serializer must hold exactly the values of the completed writes and go on working; non-trivial: an operation failed; distinct by history, value and failing allocation",
    "BinarySerializer, all Serializers, Traits",
    "operator new/delete (simulated allocator)",
    "one operation",
    "a failed read may leave its target partly assigned",
    60000, 1500000};

struct BigThrower { std::vector<Thrower> v; };
static P throwerList(Ctx& c, size_t failing) {
    typedef std::vector<Thrower> T;
    Holder<T>* h = new Holder<T>(c, "vector<Thrower>");
    h->v.resize(failing + 1 + c.pick(3, "more"));
    for (auto& x : h->v) gen(c, x);
    if (failing != (size_t)-1 && failing < h->v.size()) h->v[failing].fail = true;
    return P(h);
}
void simRun(Ctx& c) {
    BinarySerializer s;
    Model m;
    bool any = false;
    uint64_t hist = 0;
    size_t ops = 2 + c.pick(14, "operations");
    for (size_t k = 0; k < ops; k++) {
        int op = c.pick(6, "operation");
        if (op == 4 && m.v.empty()) op = 1;
        hist = sim::mix64(hist, op);
        c.step();
        if (op == 0) { P v = genValue(c); v->write(s, c.pick(2, "how")); m.v.push_back(v); c.ev("write %s", v->name()); }
        else if (op == 1 || op == 2) { // write with a failing allocation
            P v = genValue(c);
            uint64_t at = 1 + c.pick(4, "allocation");
            bool persistent = c.chance(1, 3, "persistent");
            bool three = op == 2 && c.chance(1, 2, "variadic");
            std::string tail = "tail of a variadic write, long enough for the heap";
            bool threw = false;
            sim::Alloc::arm(at, persistent);
            try {
                if (three) v->writeWith(s, 77, tail); else v->write(s, 0);
            } catch (const std::bad_alloc&) { threw = true; }
            sim::Alloc::disarm();
            bool fired = sim::Alloc::fired();
            c.ev("write %s%s with failing allocation %llu: %s", v->name(), three ? " between two others" : "", (unsigned long long)at, threw ? "bad_alloc" : "done");
            if (fired) { c.probe("allocation fails in a write"); any = true; hist = sim::mix64(hist, sim::hashStr(v->name(), at)); }
            if (threw && !fired) c.violate("spurious-error", "bad_alloc without a failing allocation");
            auto whole = [&](size_t n) { // of the variadic write, the first n values are there
                Holder<int>* a = new Holder<int>(c, "int"); a->v = 77;
                Holder<std::string>* b = new Holder<std::string>(c, "string"); b->v = tail;
                P pa(a), pb(b);
                if (n > 0) m.v.push_back(pa);
                if (n > 1) m.v.push_back(v);
                if (n > 2) m.v.push_back(pb);
            };
            if (!threw) { if (three) whole(3); else m.v.push_back(v); }
            else if (three) {
                // a variadic write is a sequence of writes: some complete ones may be there
                size_t base = 0;
                std::vector<uint8_t> d;
                for (auto& x : m.v) x->append(d);
                base = d.size();
                size_t have = s.getData().size();
                std::vector<uint8_t> e;
                size_t n = 0, size[4] = {base, 0, 0, 0};
                BinarySerializer::addNext(e, int(77)); size[1] = base + e.size();
                v->append(e); size[2] = base + e.size();
                while (n < 3 && size[n] != have) n++;
                if (n == 3) c.violate("partial-record", "after the failed variadic write of %s the serializer has %zu bytes, which is not a number of whole values", v->name(), have);
                whole(n);
            }
        } else if (op == 3) { // exception of the written type
            size_t failing = c.pick(6, "failing element");
            P v = throwerList(c, failing);
            bool threw = false;
            try { v->write(s, c.pick(2, "how")); } catch (const ThrownByType& e) { threw = e.id == 42; }
            if (!threw) c.violate("lost-exception", "the exception of the written type did not reach the caller");
            c.ev("write of a vector throws at element %zu", failing);
            c.probe("written type throws");
            any = true;
            hist = sim::mix64(hist, failing);
        } else if (op == 4) { // read with a failing allocation
            if (m.pos >= m.v.size()) m.pos = 0;
            uint64_t at = 1 + c.pick(6, "allocation");
            // std::valarray::resize of libstdc++ frees its memory twice when it runs out of memory
            if (strncmp(m.v[m.pos]->name(), "valarray", 8) == 0) at = 0;
            bool threw = false, ok = true;
            sim::Alloc::arm(at, c.chance(1, 3, "persistent"));
            try { ok = m.v[m.pos]->read(c, s, 0); } catch (const std::bad_alloc&) { threw = true; }
            sim::Alloc::disarm();
            bool fired = sim::Alloc::fired();
            c.ev("read %s with failing allocation %llu: %s", m.v[m.pos]->name(), (unsigned long long)at, threw ? "bad_alloc" : "done");
            if (fired) { c.probe("allocation fails in a read"); any = true; hist = sim::mix64(hist, sim::hashStr(m.v[m.pos]->name(), at)); }
            if (threw && !fired) c.violate("spurious-error", "bad_alloc without a failing allocation");
            if (threw) {
                if (c.chance(1, 2, "reset")) { s.resetIterator(); m.pos = 0; }
                else if (!m.v[m.pos]->read(c, s, 0)) c.violate("lost-position", "after the failed read the same value cannot be read again");
                else m.pos++;
            } else { if (!ok) c.violate("wrong-value", "value read wrongly"); m.pos++; }
        } else { // a copy that fails leaves the original
            sim::Alloc::arm(1, false);
            bool threw = false;
            try { BinarySerializer t(s); } catch (const std::bad_alloc&) { threw = true; }
            sim::Alloc::disarm();
            if (sim::Alloc::fired()) { if (!threw) c.violate("lost-exception", "a failing copy did not throw"); c.probe("allocation fails in a copy"); }
        }
        // contents: exactly the completed writes
        std::vector<uint8_t> d;
        for (auto& x : m.v) x->append(d);
        if (d != s.getData()) c.violate("wrong-contents", "after operation %zu the serializer has %zu bytes, the completed writes give %zu bytes%s", k, s.getData().size(), d.size(), d.size() == s.getData().size() ? " of other values" : "");
        if (s.isIteratorValid() != (m.pos < m.v.size())) c.violate("wrong-position", "after operation %zu the read position is wrong", k);
    }
    readAll(c, s, m, "at the end", "wrong-contents");
    c.state(sim::mix64(m.v.size(), any));
    if (any) c.nontrivial(hist);
}
