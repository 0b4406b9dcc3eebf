// C09: missing, incomplete, malformed or unreadable cell data are reported.
#include "celldata.h"
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C09", "fault_enumeration",
    "a run generates a VTK file with columns of cell data (any order, foreign columns between them, several layouts), damages it or the device (column missing or renamed, value missing or replaced by a word, cut, read, seek or open failure) and reads the data by default or bound traits; the outcome must be an exception or exactly the stored values, and reading a good file afterwards works; non-trivial: the damage or fault concerns the requested data; distinct by layout, damage, position and delivery",
    "VTKMeshDataReader<2>, VTKMeshDataReader<3>, MeshDataContainer, Traits, std::istream, std::filebuf",
    "stream buffers and the open/read/lseek system calls (simulated)",
    "one delivery of bytes",
    "a cut strictly inside the last number of a column at the end of the file leaves a valid number and is outside of the property|values after the last one of a column are not looked at",
    40000, 1500000};

struct Col { std::string kind, name, type; size_t comps; std::vector<std::vector<std::string>> v; bool needed; bool integer = false; };
struct DataText { std::string text; std::vector<std::pair<size_t, size_t>> lastValue; size_t firstByte = 0, lastNeeded = 0; };

static std::string number(Ctx& c, double v, bool integer) {
    char b[64];
    if (integer) snprintf(b, sizeof b, "%d", (int)v);
    else switch (c.pick(4, "number style")) {
        case 0: snprintf(b, sizeof b, "%.17g", v); break;
        case 1: snprintf(b, sizeof b, "%.16e", v); break;
        case 2: snprintf(b, sizeof b, "%+.17g", v); break;
        case 3: snprintf(b, sizeof b, "%.17gE0", v); if (strpbrk(b, "e")) snprintf(b, sizeof b, "%.17g", v); break;
    }
    return b;
}
static std::string tableName(Ctx& c) {
    if (!c.chance(1, 4, "table name")) return "default";
    std::string n;
    size_t len = 1 + c.pick(60, "table name length");
    while (n.size() < len) n += static_cast<char>('a' + n.size() % 26);
    return n;
}
/// data of points with the names of the cell data and other values
static std::string pointData(Ctx& c, const std::vector<Col>& cols) {
    size_t n = 1 + c.pick(6, "points");
    std::string s = "POINT_DATA " + std::to_string(n) + "\n";
    for (auto& col : cols) {
        if (!c.chance(2, 3, "point column")) continue;
        s += col.kind + " " + col.name + " " + col.type + (col.kind == "SCALARS" ? " 1\nLOOKUP_TABLE " + tableName(c) : "") + "\n";
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < col.comps; j++) s += (col.integer ? "77" : "-77.5") + std::string(j + 1 == col.comps ? "\n" : " ");
    }
    return s;
}
/// damage: 0 none, 1 value missing in column q, 2 word in column q; returns the text
static DataText render(Ctx& c, const std::vector<Col>& cols, size_t n, const std::string& front, int damage, size_t q, size_t cell, size_t comp) {
    DataText d;
    std::string nl = c.chance(1, 6, "crlf") ? "\r\n" : "\n";
    d.text = front;
    d.text += "CELL_DATA " + std::to_string(n) + nl;
    d.firstByte = d.text.size();
    for (size_t k = 0; k < cols.size(); k++) {
        const Col& col = cols[k];
        if (c.chance(1, 5, "blank line")) d.text += nl;
        d.text += col.kind + " " + col.name + " " + col.type + (col.kind == "SCALARS" && c.chance(1, 3, "components") ? " 1" : "") + (c.chance(1, 8, "trailing blank") ? " " : "") + nl;
        if (col.kind == "SCALARS") d.text += "LOOKUP_TABLE " + tableName(c) + nl;
        size_t layout = c.pick(3, "layout");
        size_t b = 0, e = 0;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < col.comps; j++) {
            std::string v = col.v[i][j];
            if (damage && k == q && i == cell && j == comp) {
                if (damage == 1) continue;
                static const char* words[] = {"x", "value", "--1", "VECTORS", ",", "\"1\""};
                v = words[c.pick(6, "word")];
            }
            b = d.text.size();
            d.text += v;
            e = d.text.size();
            bool last = i + 1 == n && j + 1 == col.comps;
            if (last || (layout == 0 && j + 1 == col.comps) || layout == 1) d.text += nl; else d.text += layout == 2 && c.chance(1, 4, "tab") ? "\t" : " ";
        }
        d.lastValue.push_back({b, e});
        if (c.chance(1, 10, "metadata")) d.text += "METADATA" + nl + "INFORMATION 0" + nl + nl;
        if (col.needed) d.lastNeeded = e;
    }
    return d;
}
template <unsigned D, typename T> static void one(Ctx& c) {
    size_t n = 1 + c.pick(c.chance(1, 10, "many") ? 60 : 5, "cells");
    int which = wayOfData(c);
    std::vector<T> ref(n);
    for (auto& x : ref) fillData(c, x, 17);
    std::vector<Col> cols;
    auto shape = expectOf(ref[0], which);
    for (size_t q = 0; q < shape.size(); q++) {
        Col col;
        col.comps = shape[q].second.size();
        col.kind = kindOf(col.comps);
        col.name = shape[q].first;
        col.needed = true;
        col.integer = col.name == "colour";
        col.type = col.integer ? "int" : c.chance(1, 2, "type") ? "double" : "float";
        for (size_t i = 0; i < n; i++) {
            col.v.push_back({});
            auto ex = expectOf(ref[i], which);
            for (double v : ex[q].second) col.v.back().push_back(number(c, v, col.integer));
        }
        cols.push_back(col);
    }
    // foreign columns
    size_t foreign = c.pick(4, "foreign columns");
    static const char* fnames[] = {"pressure2", "press", "vel", "velocityOld", "extraLong", "SCALARS", "VECTORS", "colou", "x", "stress_", "speedy", "Pressure"};
    std::set<std::string> used;
    for (size_t k = 0; k < foreign; k++) {
        Col col;
        col.name = fnames[c.pick(12, "name")];
        if (!used.insert(col.name).second) continue;
        size_t kk = c.pick(3, "kind");
        col.comps = kk == 0 ? 1 : kk == 1 ? 3 : 9;
        col.kind = kindOf(col.comps);
        col.type = "double";
        col.needed = false;
        for (size_t i = 0; i < n; i++) { col.v.push_back({}); for (size_t j = 0; j < col.comps; j++) col.v.back().push_back(number(c, coord(c), false)); }
        cols.push_back(col);
    }
    for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[i - 1 - c.pick(i, "order")]);
    // damage
    static const char* kinds[] = {"no damage", "column missing", "column renamed", "value missing", "word instead of a value", "truncated stream", "failing stream", "truncated file", "failing read call", "failing seek", "failing open"};
    int kind = c.pick(11, "damage");
    size_t q = 0;
    { std::vector<size_t> need; for (size_t k = 0; k < cols.size(); k++) if (cols[k].needed) need.push_back(k); q = c.of(need, "column"); }
    size_t cell = c.pick(n, "cell"), comp = c.pick(cols[q].comps, "component");
    std::vector<Col> good = cols;
    bool damaged = kind == 3 || kind == 4;
    // the unused components of 2D vectors and tensors may be anything, but its absence shifts nothing only at the end of a cell
    if (D == 2 && cols[q].comps == 3 && comp == 2) comp = 1;
    if (D == 2 && cols[q].comps == 9 && (comp > 4 || comp == 2)) comp = comp % 2;
    if (kind == 1) { cols.erase(cols.begin() + q); damaged = true; }
    if (kind == 2) { cols[q].name += c.chance(1, 2, "suffix") ? "_" : "s"; damaged = true; }
    std::string front;
    if (c.chance(1, 2, "mesh in front")) {
        GenOpt o; o.small2 = 3; o.small3 = 2; o.big2 = o.big3 = 5;
        front = genCase(c, D == 2 ? VTK2 : VTK3, o).text;
        size_t cd = front.find("CELL_DATA");
        if (cd != front.npos) front.erase(cd);
        if (!front.empty() && front.back() != '\n') front += "\n";
        if (c.chance(1, 3, "title") && front.compare(0, 5, "# vtk") == 0) {
            size_t a = front.find('\n') + 1, b = front.find('\n', a);
            const Col& col = c.of(good, "column in the title");
            if (b != front.npos) front.replace(a, b - a, c.chance(1, 5, "data keyword") ? "CELL_DATA 3" : c.chance(1, 5, "data keyword") ? "POINT_DATA 4" : col.kind + " " + col.name + " double");
            c.probe("title like a header");
        }
    }
    if (c.chance(1, 4, "point data in front")) { front += pointData(c, good); c.probe("point data of the same names"); }
    DataText d = render(c, cols, n, front, kind == 3 ? 1 : kind == 4 ? 2 : 0, q, cell, comp);
    if (c.chance(1, 5, "point data behind")) { d.text += pointData(c, good); c.probe("point data of the same names"); }
    size_t L = d.text.size();
    size_t at = 0;
    if (kind >= 5) {
        if (c.chance(1, 4, "near the end")) at = L - 1 - c.skew(L, "position from the end");
        else at = d.firstByte + c.pick(L - d.firstByte, "position");
        if (kind == 5 || kind == 7) for (auto& lv : d.lastValue) if (at > lv.first && at < lv.second) c.discard();
    }
    MeshDataContainer<T, D> data;
    data.template getDataByPos<0>().resize(n);
    for (size_t i = 0; i < n; i++) fillData(c, data.template getDataByPos<0>().at(i), 6);
    c.ev("%zu cells, %zu columns, %s%s in column %s cell %zu component %zu / byte %zu of %zu", n, cols.size(), kinds[kind], which == 1 || which == 3 ? " (bound traits)" : "", good[q].name.c_str(), cell, comp, at, L);
    auto compare = [&](const char* when) {
        auto& dd = data.template getDataByPos<0>();
        if (dd.size() != n) c.violate("wrong-size", "%s: the container has %zu values instead of %zu", when, dd.size(), n);
        for (size_t i = 0; i < n; i++) {
            auto a = expectOf(dd.at(i), which), b = expectOf(ref[i], which);
            for (size_t k = 0; k < a.size(); k++) if (a[k].second != b[k].second) {
                size_t m = 0;
                while (a[k].second[m] == b[k].second[m]) m++;
                c.violate("wrong-data", "%s: no error, but component %zu of %s of cell %zu is %.17g while the file has %.17g", when, m, a[k].first.c_str(), i, a[k].second[m], b[k].second[m]);
            }
        }
    };
    bool threw = false, fired = damaged;
    std::string what;
    uint64_t delivery = 0;
    if (kind < 7) {
        sim::SimIn in(d.text);
        if (kind == 5) in.eofAt = at;
        if (kind == 6) in.errAt = at;
        drawChunks(c, in);
        delivery = in.chunk;
        std::istream is(&in);
        // the stream may have been used before
        if (c.chance(1, 4, "stream at its end")) { std::string w; while (is >> w) {} if (kind != 6) is.clear(); else is.clear(); }
        try { readAll<D>(is, data, which); } catch (const std::exception& e) { threw = true; what = e.what(); }
        c.step(in.refills);
        if (kind == 5 && at < L) { fired = true; c.probe("stream ends early"); }
        if (kind == 6 && in.errSeen) { fired = true; c.probe("stream fails"); }
        if (!threw && c.chance(1, 3, "read twice")) {
            in.errAt = sim::SimIn::npos;
            try { readAll<D>(is, data, which); } catch (const std::exception& e) { c.violate("second-read", "the data cannot be read a second time from the same stream: %s", e.what()); }
            c.probe("read twice");
        }
    } else {
        sim::enterScratch(c);
        sim::writeFile("d.vtk", kind == 7 ? d.text.substr(0, at) : d.text);
        sim::FilePlan p = benignPlan(c);
        delivery = p.shortReadMax;
        if (kind == 8) { p.failReadNth = 1 + (p.shortReadMax ? c.pick(2 * L / p.shortReadMax + 1, "read call") : c.pick(3, "read call")); static const int errs[] = {EIO, EBADF, ENOMEM}; p.readErrno = errs[c.pick(3, "errno")]; }
        if (kind == 9) p.failSeekNth = 1 + c.pick(2 * cols.size() + 2, "seek");
        if (kind == 10) { p.failOpenNth = 1; p.openErrno = c.chance(1, 2, "errno") ? ENOENT : EMFILE; }
        sim::FileSim::arm(p);
        {
            std::ifstream f("d.vtk", std::ios::binary);
            try { readAll<D>(f, data, which); } catch (const std::exception& e) { threw = true; what = e.what(); }
        }
        sim::FileSim::disarm();
        sim::FileSim::report(c);
        c.step(sim::FileSim::reads);
        fired = kind == 7 || sim::FileSim::firedRead || sim::FileSim::firedSeek || sim::FileSim::firedOpen;
        if (kind == 7) c.probe("file ends early");
        if (kind == 10 && !threw) c.violate("open-ignored", "the file could not be opened but no error was raised");
    }
    c.ev("%s", threw ? ("error: " + what).c_str() : "read");
    if (!threw) {
        if (damaged) c.violate("damage-ignored", "%s (column %s, cell %zu, component %zu) was not reported", kinds[kind], good[q].name.c_str(), cell, comp);
        compare(kinds[kind]);
        c.probe("read although the fault fired", fired);
    } else {
        c.probe("error raised");
        if (!fired) c.violate("spurious-error", "the data are complete but reading failed: %s", what.c_str());
    }
    if (damaged) c.probe(kinds[kind]);
    // a good file afterwards
    {
        DataText g = render(c, good, n, "", 0, 0, 0, 0);
        std::istringstream is(g.text);
        try { readAll<D>(is, data, which); } catch (const std::exception& e) { c.violate("no-recovery", "a good file cannot be read afterwards: %s", e.what()); }
        compare("good file afterwards");
    }
    uint64_t sig = sim::mix64(sim::mix64(n, kind), which);
    for (auto& x : cols) sig = sim::mix64(sig, sim::hashStr(x.name));
    sig = sim::mix64(sig, damaged ? cell * 10 + comp : at);
    c.state(sig);
    if (fired) c.nontrivial(sim::mix64(sig, delivery));
}
void simRun(Ctx& c) {
    if (c.pick(2, "dimension")) one<3, Data3>(c); else one<2, Data2>(c);
}
