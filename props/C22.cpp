// C22: a damaged mesh file never breaks the program.
// BUILD: alloc
#include "celldata.h"
#include "alloc.h"
#include "incidence.h"
using namespace cases;

const sim::HarnessInfo simHarness = {
    "C22", "fault_enumeration",
    "a run generates a good mesh file (or mesh with cell data) and damages it: bytes changed, lost, inserted, cut; numbers replaced by zero, negative, huge, neighbouring or other numbers of the file; tokens and lines lost, repeated, exchanged; keywords changed; a part of another file inserted; blocks of the disk lost or repeated; then it loads it from a stream or through the simulated disk into a fresh or used mesh: the load must throw a std::exception or return, within the memory limit and step bound; what it returned must be a closed mesh (every index refers to an element, the boundary of every cell closes), then the same mesh and reader must be usable: clear, load the good file with the right result; non-trivial: the file was damaged; distinct by file and damage",
    "VTKMeshReader<2>, VTKMeshReader<3>, FPMAMeshReader<3>, VTKMeshDataReader, UnstructuredMesh::load, MeshElements",
    "damaged storage contents, stream buffers, read system calls (simulated), a memory of 64 MB for one block (simulated allocator)",
    "one load of a damaged file",
    "a file which after the damage describes another valid mesh may be loaded as such",
    25000, 1500000};

static std::vector<std::pair<size_t, size_t>> tokens(const std::string& s) {
    std::vector<std::pair<size_t, size_t>> r;
    for (size_t i = 0; i < s.size();) {
        while (i < s.size() && isspace((unsigned char)s[i])) i++;
        size_t b = i;
        while (i < s.size() && !isspace((unsigned char)s[i])) i++;
        if (i > b) r.push_back({b, i - b});
    }
    return r;
}
static std::vector<std::pair<size_t, size_t>> lines(const std::string& s) {
    std::vector<std::pair<size_t, size_t>> r;
    for (size_t i = 0; i < s.size();) {
        size_t e = s.find('\n', i);
        e = e == s.npos ? s.size() : e + 1;
        r.push_back({i, e - i});
        i = e;
    }
    return r;
}
static std::string number(Ctx& c, const std::string& old) {
    unsigned long long v = (unsigned long long)strtoll(old.c_str(), nullptr, 10);
    switch (c.pick(10, "new number")) {
    case 0: return "0";
    case 1: return "-1";
    case 2: return std::to_string((long long)(v + 1));
    case 3: return std::to_string((long long)(v - 1));
    case 4: return std::to_string((long long)c.pick(200, "number"));
    case 5: { static const char* h[] = {"4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "2147483648", "65535", "65536", "1000000", "-9223372036854775808", "9223372036854775808"}; return h[c.pick(12, "huge number")]; }
    case 6: { static const char* h[] = {"1.5", "1e3", "nan", "inf", "0x10", "+", "-", "1e999", "--1", "1,5"}; return h[c.pick(10, "odd number")]; }
    case 7: return old + old;
    case 8: return std::to_string((long long)(v * 2));
    default: return "-" + old;
    }
}
/// damages the text; names what was done
static void damage(Ctx& c, std::string& s, std::string& what, const std::string& other) {
    size_t n = 1 + c.skew(4, "damages");
    for (size_t k = 0; k < n && !s.empty(); k++) {
        auto t = tokens(s);
        auto l = lines(s);
        int kind = (int)c.pick(17, "damage");
        if (t.empty()) kind = 1;
        size_t i = t.empty() ? 0 : c.chance(1, 3, "at the beginning") ? c.pick(std::min<size_t>(t.size(), 24), "token") : c.pick(t.size(), "token");
        size_t p = c.pick(s.size(), "position");
        switch (kind) {
        case 0: case 12: case 13: { // numbers are the most interesting
            std::vector<size_t> num;
            for (size_t j = 0; j < t.size(); j++) if (isdigit((unsigned char)s[t[j].first]) || s[t[j].first] == '-') num.push_back(j);
            if (num.empty()) break;
            size_t j = num[c.chance(1, 3, "among the first") ? c.pick(std::min<size_t>(num.size(), 10), "number") : c.pick(num.size(), "number")];
            std::string old = s.substr(t[j].first, t[j].second), nw = number(c, old);
            s.replace(t[j].first, t[j].second, nw);
            what += " token " + std::to_string(j) + " " + old + " becomes " + nw;
            c.probe("number changed");
            break;
        }
        case 1: s[p] ^= (char)(1 << c.pick(8, "bit")); what += " bit at " + std::to_string(p); c.probe("bit flipped"); break;
        case 2: s[p] = (char)c.pick(256, "byte"); what += " byte at " + std::to_string(p); c.probe("byte changed"); break;
        case 3: { size_t m = 1 + c.skew(40, "bytes"); s.erase(p, m); what += " " + std::to_string(m) + " bytes lost at " + std::to_string(p); c.probe("bytes lost"); break; }
        case 4: { std::string x; size_t m = 1 + c.skew(20, "bytes"); for (size_t j = 0; j < m; j++) x += (char)c.pick(256, "byte"); s.insert(p, x); what += " bytes inserted at " + std::to_string(p); c.probe("bytes inserted"); break; }
        case 5: what += " token " + s.substr(t[i].first, t[i].second) + " lost"; s.erase(t[i].first, t[i].second); c.probe("token lost"); break;
        case 6: { std::string x = s.substr(t[i].first, t[i].second) + " "; s.insert(t[i].first, x); what += " token " + x + "repeated"; c.probe("token repeated"); break; }
        case 7: { // exchange two tokens
            size_t j = c.chance(1, 2, "next token") ? std::min(i + 1, t.size() - 1) : c.pick(t.size(), "other token");
            size_t a = std::min(i, j), b = std::max(i, j);
            std::string x = s.substr(t[a].first, t[a].second), y = s.substr(t[b].first, t[b].second);
            if (a != b) { s.replace(t[b].first, t[b].second, x); s.replace(t[a].first, t[a].second, y); }
            what += " tokens " + x + " and " + y + " exchanged"; c.probe("tokens exchanged");
            break;
        }
        case 8: { size_t j = c.pick(l.size(), "line"); s.erase(l[j].first, l[j].second); what += " line " + std::to_string(j) + " lost"; c.probe("line lost"); break; }
        case 9: { size_t j = c.pick(l.size(), "line"); std::string x = s.substr(l[j].first, l[j].second); s.insert(l[j].first, x); what += " line " + std::to_string(j) + " repeated"; c.probe("line repeated"); break; }
        case 10: { size_t j = c.pick(l.size(), "line"), q = c.pick(l.size(), "line"); size_t a = std::min(j, q), b = std::max(j, q); std::string x = s.substr(l[a].first, l[a].second), y = s.substr(l[b].first, l[b].second); if (a != b) { s.replace(l[b].first, l[b].second, x); s.replace(l[a].first, l[a].second, y); } what += " lines exchanged"; c.probe("lines exchanged"); break; }
        case 11: s.resize(p); what += " cut at " + std::to_string(p); c.probe("cut"); break;
        case 15: case 16: { // a list with its length: the file can still be read through
            std::vector<std::vector<std::string>> w;
            std::vector<size_t> at;
            for (size_t j = 0; j < l.size(); j++) {
                std::istringstream is(s.substr(l[j].first, l[j].second));
                std::vector<std::string> v; std::string x;
                while (is >> x) v.push_back(x);
                if (v.size() > 1 && v[0] == std::to_string(v.size() - 1)) { w.push_back(v); at.push_back(j); }
            }
            if (at.empty()) break;
            size_t j = c.chance(1, 3, "the first") ? 0 : c.pick(at.size(), "list");
            std::vector<std::string> v(w[j].begin() + 1, w[j].end());
            switch (c.pick(5, "list damage")) {
            case 0: v.clear(); break;
            case 1: v.resize(c.pick(v.size(), "length")); break;
            case 2: v.push_back(v[c.pick(v.size(), "item")]); break;
            case 3: v.insert(v.begin() + c.pick(v.size(), "place"), w[c.pick(w.size(), "other list")].back()); break;
            default: { auto& y = w[c.pick(w.size(), "other list")]; v.assign(y.begin() + 1, y.end()); break; }
            }
            std::string x = std::to_string(v.size());
            for (auto& y : v) x += " " + y;
            s.replace(l[at[j]].first, l[at[j]].second, x + "\n");
            what += " list in line " + std::to_string(at[j]) + " becomes " + x; c.probe("list changed");
            break;
        }
        case 14: // a block of the disk: zeros, or contents of another file
            if (c.chance(1, 2, "other file") && !other.empty()) { size_t q = c.pick(other.size(), "from"), m = 1 + c.pick(other.size(), "bytes"); s.replace(p, std::min(m, s.size() - p), other.substr(q, m)); what += " part of another file at " + std::to_string(p); c.probe("part of another file"); }
            else { size_t m = 1 + c.pick(200, "bytes"); for (size_t j = p; j < s.size() && j < p + m; j++) s[j] = '\0'; what += " zero block at " + std::to_string(p); c.probe("zero block"); }
            break;
        }
    }
}
template <unsigned D> struct Closed {
    template <typename MT> static void sub(Ctx& c, const MT& m) {
        for (auto& f : m.getFaces()) { const auto& s = f.getSubelements(); for (size_t i = 0; i < s.size(); i++) if (s[i] >= m.getEdges().size()) c.violate("wild-index", "the load returned; face %zu refers to the edge %zu of %zu", (size_t)f.getIndex(), (size_t)s[i], m.getEdges().size()); }
    }
};
template <> struct Closed<2> { template <typename MT> static void sub(Ctx&, const MT&) {} };
/// What the load returned can be used: indexes refer to elements, boundaries close.
template <typename MT> static void closed(Ctx& c, const MT& m) {
    constexpr unsigned D = MT::meshDimension();
    size_t nv = m.getVertices().size(), nf = m.getFaces().size(), nc = m.getCells().size();
    for (auto& e : m.getEdges()) if (e.getVertexAIndex() >= nv || e.getVertexBIndex() >= nv) c.violate("wild-index", "the load returned; edge %zu refers to the vertices %zu and %zu of %zu", (size_t)e.getIndex(), (size_t)e.getVertexAIndex(), (size_t)e.getVertexBIndex(), nv);
    Closed<D>::sub(c, m);
    for (size_t i = 0; i < nc; i++) {
        size_t first = m.getCells()[i].getBoundaryElementIndex(), f = first, n = 0;
        do {
            if (f >= nf) c.violate("wild-index", "the load returned; the boundary of cell %zu of %zu goes to the face %zu of %zu", i, nc, f, nf);
            const auto& F = m.getFaces()[f];
            if (F.getCellLeftIndex() != i && F.getCellRightIndex() != i) c.violate("broken-boundary", "the load returned; the boundary of cell %zu goes to face %zu which does not belong to it", i, f);
            f = F.getNextBElem(i);
            if (++n > nf) c.violate("broken-boundary", "the load returned; the boundary of cell %zu does not close", i);
        } while (f != first);
    }
}
template <typename MT> static void meshFile(Ctx& c, int fmt) {
    constexpr unsigned D = MT::meshDimension();
    GenOpt o;
    o.small3 = 4; o.big3 = 20; o.small2 = 6; o.big2 = 40;
    Case k = genCase(c, fmt, o);
    std::string other;
    if (c.chance(1, 8, "another file")) other = genCase(c, D == 2 ? VTK2 : c.chance(1, 2, "other format") ? VTK3 : FPMA3, o).text;
    std::string text = k.text, what;
    damage(c, text, what, other);
    c.ev("%s: %s", describe(k).c_str(), sim::printable(what, 500).c_str());
    MT mesh;
    Types<D> types;
    bool used = c.chance(1, 4, "used mesh");
    if (used) { std::istringstream is(k.text); Load<D>::stream(fmt, is, mesh, types); }
    bool file = c.chance(1, 4, "through a file");
    std::string err;
    bool threw = false;
    if (file) {
        sim::enterScratch(c);
        sim::writeFile(fileName(fmt), text);
        sim::FilePlan p = benignPlan(c);
        sim::FileSim::arm(p);
    }
    sim::SimIn in(text);
    drawChunks(c, in);
    std::istream is(&in);
    sim::Alloc::limit((size_t)64 << 20);
    try {
        if (file) { auto r = mesh.load(fileName(fmt)); if (r) types = r->getCellTypes(); }
        else Load<D>::stream(fmt, is, mesh, types);
    } catch (const std::exception& e) { threw = true; err = e.what(); }
    sim::Alloc::limit((size_t)512 << 20);
    if (file) {
        sim::FileSim::disarm();
        if (sim::FileSim::openFds()) c.violate("open-file", "the load left a file open");
    }
    c.step();
    c.ev("%s", threw ? sim::printable("error: " + err, 200).c_str() : "returned");
    if (threw) c.probe("load threw");
    else {
        c.probe("load returned");
        closed(c, mesh);
        if (c.chance(1, 3, "further operations")) {
            c.probe("further operations");
            try {
                mesh.initializeCenters();
                mesh.setupBoundaryCells();
                mesh.setupBoundaryCellsCenters();
                mesh.updateSignature();
                auto nb = MeshConnections<D, 0>::connections(mesh);
                auto col = MeshColoring<D, D - 1>::color(mesh);
            } catch (const std::exception& e) { c.ev("%s", e.what()); }
        }
    }
    if (sim::Alloc::limitHits()) c.probe("memory limit reached");
    // the mesh can be used further
    if (c.chance(1, 3, "clear")) mesh.clear();
    if (c.chance(1, 4, "copy")) { MT copy(mesh); mesh = copy; }
    std::istringstream good(k.text);
    try { Load<D>::stream(fmt, good, mesh, types); } catch (const std::exception& e) { c.violate("no-recovery", "after the damaged file the good one cannot be loaded: %s", e.what()); }
    MT fresh;
    Types<D> ft;
    std::istringstream good2(k.text);
    Load<D>::stream(fmt, good2, fresh, ft);
    if (dump(fresh) + dumpTypes(ft) != dump(mesh) + dumpTypes(types)) c.violate("no-recovery", "after the damaged file the good one is loaded wrongly: %s", diffLine(dump(fresh) + dumpTypes(ft), dump(mesh) + dumpTypes(types)).c_str());
    c.state(sim::hashStr(err, threw));
    if (text != k.text) c.nontrivial(sim::hashStr(text));
}
template <unsigned D> struct DataOf { typedef Data3 type; };
template <> struct DataOf<2> { typedef Data2 type; };
template <typename MT> static void dataFile(Ctx& c, int fmt) {
    constexpr unsigned D = MT::meshDimension();
    typedef typename DataOf<D>::type T;
    GenOpt o;
    o.small3 = 4; o.big3 = 12; o.small2 = 5; o.big2 = 30;
    Case k = genCase(c, fmt, o);
    MT mesh;
    Types<D> types;
    std::istringstream is(k.text);
    Load<D>::stream(fmt, is, mesh, types);
    mesh.initializeCenters();
    MeshDataContainer<T, D> data(mesh);
    for (auto& v : data.template getDataByPos<0>()) { v = T(); fillData(c, v, 6); }
    int which = wayOfData(c);
    std::ostringstream os;
    writeAll<D>(os, mesh, types, data, which, "t");
    std::string all = os.str(), text = all, what;
    size_t from = all.find("CELL_DATA");
    std::string part = all.substr(from);
    if (c.chance(1, 8, "anywhere")) damage(c, text, what, k.text);
    else { damage(c, part, what, k.text); text = all.substr(0, from) + part; }
    c.ev("cell data of %s: %s", describe(k).c_str(), sim::printable(what, 500).c_str());
    MeshDataContainer<T, D> back(mesh);
    for (auto& v : back.template getDataByPos<0>()) v = T();
    sim::SimIn in(text);
    drawChunks(c, in);
    std::istream ds(&in);
    sim::Alloc::limit((size_t)64 << 20);
    bool threw = false;
    std::string err;
    try { readAll<D>(ds, back, which); } catch (const std::exception& e) { threw = true; err = e.what(); }
    sim::Alloc::limit((size_t)512 << 20);
    c.step();
    c.ev("%s", threw ? sim::printable("error: " + err, 200).c_str() : "returned");
    c.probe(threw ? "data load threw" : "data load returned");
    if (back.template getDataByPos<0>().size() != mesh.getCells().size()) c.violate("resized", "reading damaged data changed the number of values");
    std::istringstream good(all);
    try { readAll<D>(good, back, which); } catch (const std::exception& e) { c.violate("no-recovery", "after the damaged file the good one cannot be read: %s", e.what()); }
    MeshDataContainer<T, D> fresh(mesh);
    for (auto& v : fresh.template getDataByPos<0>()) v = T();
    std::istringstream good2(all);
    readAll<D>(good2, fresh, which);
    for (size_t i = 0; i < mesh.getCells().size(); i++) if (expectOf(fresh.template getDataByPos<0>()[i], which) != expectOf(back.template getDataByPos<0>()[i], which)) c.violate("no-recovery", "after the damaged file the data of cell %zu are read wrongly", i);
    c.state(sim::hashStr(err, threw));
    if (text != all) c.nontrivial(sim::hashStr(text));
}
void simRun(Ctx& c) {
    switch (c.pick(10, "case")) {
    case 0: case 1: meshFile<UnstructuredMesh<3, size_t, double>>(c, VTK3); break;
    case 2: case 3: meshFile<UnstructuredMesh<3, size_t, double>>(c, FPMA3); break;
    case 4: case 5: meshFile<UnstructuredMesh<2, size_t, double>>(c, VTK2); break;
    case 6: meshFile<UnstructuredMesh<3, unsigned int, float, 6>>(c, FPMA3); break;
    case 7: model::largeMeshes() = false; meshFile<UnstructuredMesh<2, unsigned short, float>>(c, VTK2); break;
    case 8: dataFile<UnstructuredMesh<3, size_t, double>>(c, VTK3); break;
    case 9: dataFile<UnstructuredMesh<2, size_t, double>>(c, VTK2); break;
    }
}
