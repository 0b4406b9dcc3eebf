// C15: printed variables show the value on any stream.
// BUILD: debug
#include "serial.h"
#include "streams.h"
#include <functional>
#include <iomanip>
#include <list>
#include <map>
#include <GTMesh/Debug/Debug.h>
#include <GTMesh/NumericStaticArray/Vertex.h>
#include <GTMesh/Traits/TraitsBind/TraitsBind.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerIOTraits.h>
#include <unistd.h>
using namespace serial;

const sim::HarnessInfo simHarness = {
    "C15", "exploration",
    "a run prints generated values (numbers, booleans, text, containers, maps, tuples, structures with traits, own operators, data of a mesh by dimension, nested) to a stream with any number format, buffering and failure position, reporting errors by state, by exception or from inside the value, and by printf to a file that may be full, and through the console logger in any configuration; the bytes are compared with a reference printer; non-trivial: a composite value was printed; distinct by type, text and failure",
    "VariableExport, all Printers, ConsoleLogger, Traits, TraitsBinder, Traits of MeshDataContainer",
    "stream buffer (simulated), the file behind stdout (limited by the kernel)",
    "one printed value",
    "printf output compared in the default number format",
    40000, 2000000};

struct WithOp { int a; };
inline std::ostream& operator<<(std::ostream& o, const WithOp& w) { return o << "<op " << w.a << ">"; }
struct WithPrintTo { int a; std::string s; };
inline void PrintTo(const WithPrintTo& w, std::ostream& o) { o << "custom " << w.a << " of " << w.s; }
inline void PrintTo(const WithPrintTo& w) { printf("custom %d of %s", w.a, w.s.c_str()); }
struct Opaque { unsigned char b[6]; };
struct Bomb { int at; int id; };   // its operator throws
inline std::ostream& operator<<(std::ostream& o, const Bomb& b) { o << "bo"; if (b.at == b.id) throw ThrownByType{b.id}; return o << "mb" << b.id; }
struct Inner { double x; std::string t; bool f; };
MAKE_ATTRIBUTE_TRAIT_IO(Inner, x, t, f);
struct Outer { int n; Inner in; std::vector<Inner> list; std::map<std::string, std::vector<double>> m; std::pair<int, Inner> p; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Outer, "the n", n, "inner", in, "list", list, "m", m, "pair", p);
struct Single { long only; };
MAKE_ATTRIBUTE_TRAIT_IO(Single, only);
struct NoTraits { int a; double b; std::string c; };
inline bool operator<(const NoTraits& x, const NoTraits& y) { return x.a < y.a; }
struct WithNoTraits { std::vector<NoTraits> list; int k; NoTraits one; };
MAKE_ATTRIBUTE_TRAIT_IO(WithNoTraits, list, k, one);

// ---- reference printer: independent of GTMesh ----
struct Ref { std::ostringstream o; };
template <typename T> std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value> ref(std::ostream& o, const T& v) { o << v; }
inline void ref(std::ostream& o, const bool& v) { o << (v ? "true" : "false"); }
inline void ref(std::ostream& o, const char& v) { o << '"' << v << '"'; }
inline void ref(std::ostream& o, const std::string& v) { o << '"' << v << '"'; }
inline void ref(std::ostream& o, const char* const& v) { o << '"' << v << '"'; }
inline void ref(std::ostream& o, const WithOp& w) { o << "<op " << w.a << ">"; }
inline void ref(std::ostream& o, const WithPrintTo& w) { o << "custom " << w.a << " of " << w.s; }
inline void ref(std::ostream& o, const Bomb& b) { o << "bomb" << b.id; }
inline void ref(std::ostream& o, const Opaque& v) {
    std::string s = typeid(Opaque).name();
    s += "(";
    static const char d[] = "0123456789abcdef";
    for (int i = 0; i < 6; i++) { if (i) s += ' '; s += d[v.b[i] >> 4]; s += d[v.b[i] & 15]; }
    o << s << ")";
}
inline void ref(std::ostream& o, const Inner& v);
inline void ref(std::ostream& o, const NoTraits& v);
inline void ref(std::ostream& o, const WithNoTraits& v);
inline void ref(std::ostream& o, const Outer& v);
inline void ref(std::ostream& o, const Single& v) { o << "{ \"only\" : "; ref(o, v.only); o << " }"; }
template <typename A, typename B> void ref(std::ostream& o, const std::pair<A, B>& v);
template <typename A, typename B, typename C> void ref(std::ostream& o, const std::tuple<A, B, C>& v);
template <typename A, size_t N> void ref(std::ostream& o, const std::array<A, N>& v);
template <typename A> void ref(std::ostream& o, const std::vector<A>& v);
template <typename A> void ref(std::ostream& o, const std::deque<A>& v);
template <typename A> void ref(std::ostream& o, const std::list<A>& v);
template <typename A> void ref(std::ostream& o, const std::set<A>& v);
template <typename A> void ref(std::ostream& o, const std::valarray<A>& v);
template <typename A, typename B> void ref(std::ostream& o, const std::map<A, B>& v);
template <unsigned N> void ref(std::ostream& o, const Vector<N, double>& v);
template <typename C> void refSeq(std::ostream& o, const C& v) { o << "[ "; bool f = true; for (const auto& x : v) { if (!f) o << ", "; f = false; ref(o, x); } o << " ]"; }
template <typename A, typename B> void ref(std::ostream& o, const std::pair<A, B>& v) { o << "{ "; ref(o, v.first); o << ": "; ref(o, v.second); o << "}"; }
template <typename A, typename B, typename C> void ref(std::ostream& o, const std::tuple<A, B, C>& v) { o << "[ "; ref(o, std::get<0>(v)); o << ", "; ref(o, std::get<1>(v)); o << ", "; ref(o, std::get<2>(v)); o << "]"; }
template <typename A, size_t N> void ref(std::ostream& o, const std::array<A, N>& v) { refSeq(o, v); }
template <typename A> void ref(std::ostream& o, const std::vector<A>& v) { refSeq(o, v); }
template <typename A> void ref(std::ostream& o, const std::deque<A>& v) { refSeq(o, v); }
template <typename A> void ref(std::ostream& o, const std::list<A>& v) { refSeq(o, v); }
template <typename A> void ref(std::ostream& o, const std::set<A>& v) { refSeq(o, v); }
template <typename A> void ref(std::ostream& o, const std::valarray<A>& v) { std::vector<A> t; for (size_t i = 0; i < v.size(); i++) t.push_back(v[i]); refSeq(o, t); }
template <typename A, typename B> void ref(std::ostream& o, const std::map<A, B>& v) { refSeq(o, v); }
template <unsigned N> void ref(std::ostream& o, const Vector<N, double>& v) { std::vector<double> t; for (unsigned i = 0; i < N; i++) t.push_back(v[i]); refSeq(o, t); }
inline void ref(std::ostream& o, const Inner& v) { o << "{ \"x\" : "; ref(o, v.x); o << ", \"t\" : "; ref(o, v.t); o << ", \"f\" : "; ref(o, v.f); o << " }"; }
inline void ref(std::ostream& o, const NoTraits& v) { o << "{ \"c\" : "; ref(o, v.c); o << ", \"num\" : "; ref(o, v.b); o << " }"; } // always by bound traits
inline void ref(std::ostream& o, const WithNoTraits& v) { o << "{ \"list\" : "; ref(o, v.list); o << ", \"k\" : "; ref(o, v.k); o << ", \"one\" : "; ref(o, v.one); o << " }"; }
inline void ref(std::ostream& o, const Outer& v) {
    o << "{ \"the n\" : "; ref(o, v.n); o << ", \"inner\" : "; ref(o, v.in); o << ", \"list\" : "; ref(o, v.list); o << ", \"m\" : "; ref(o, v.m); o << ", \"pair\" : "; ref(o, v.p); o << " }";
}
// ---- generation ----
inline void gen15(Ctx& c, const char*& v) { static const char* k[] = {"", "text", "two words"}; v = k[c.pick(3, "text")]; }
inline void gen15(Ctx& c, char& v) { v = (char)('!' + c.pick(90, "char")); }
inline void gen15(Ctx& c, WithOp& v) { v.a = (int)c.pick(100, "value"); }
inline void gen15(Ctx& c, WithPrintTo& v) { v.a = (int)c.pick(100, "value"); gen(c, v.s); }
inline void gen15(Ctx& c, Opaque& v) { for (auto& x : v.b) x = (unsigned char)c.pick(256, "byte"); }
inline void gen15(Ctx& c, Single& v) { gen(c, v.only); }
template <typename T> void gen15(Ctx& c, T& v) { gen(c, v); }
inline void gen15(Ctx& c, Inner& v) { gen(c, v.x); gen(c, v.t); gen(c, v.f); }
template <typename A, typename B> void gen15(Ctx& c, std::pair<A, B>& v) { gen15(c, v.first); gen15(c, v.second); }
template <typename A> void gen15(Ctx& c, std::vector<A>& v) { v.clear(); v.resize(len(c)); for (auto& x : v) gen15(c, x); }
template <typename A> void gen15(Ctx& c, std::list<A>& v) { v.clear(); v.resize(len(c)); for (auto& x : v) gen15(c, x); }
template <typename A> void gen15(Ctx& c, std::valarray<A>& v) { v.resize(len(c)); for (auto& x : v) gen15(c, x); }
template <typename A, typename B> void gen15(Ctx& c, std::map<A, B>& v) { v.clear(); size_t n = len(c); for (size_t i = 0; i < n; i++) { A k; gen15(c, k); gen15(c, v[k]); } }
inline void gen15(Ctx& c, NoTraits& v) { gen(c, v.a); gen(c, v.b); gen(c, v.c); }
inline void gen15(Ctx& c, WithNoTraits& v) { gen15(c, v.list); gen(c, v.k); gen15(c, v.one); }
inline void gen15(Ctx& c, Outer& v) { gen(c, v.n); gen15(c, v.in); gen15(c, v.list); gen15(c, v.m); gen15(c, v.p); }
template <typename A, typename B, typename C> void gen15(Ctx& c, std::tuple<A, B, C>& v) { gen15(c, std::get<0>(v)); gen15(c, std::get<1>(v)); gen15(c, std::get<2>(v)); }

static void drawFormat(Ctx& c, std::ostream& o, bool base) {
    if (c.chance(1, 3, "format")) {
        static const int pr[] = {6, 0, 1, 3, 10, 17};
        o.precision(pr[c.pick(6, "precision")]);
        switch (c.pick(4, "float format")) { case 1: o << std::fixed; break; case 2: o << std::scientific; break; case 3: o << std::showpos; break; }
        if (c.chance(1, 2, "more flags")) {
            if (c.chance(1, 2, "boolalpha")) o << std::boolalpha;
            if (c.chance(1, 4, "showpoint")) o << std::showpoint;
        }
        if (base) switch (c.pick(3, "base")) { case 1: o << std::hex; break; case 2: o << std::oct << std::setfill('*'); break; }
        c.probe("number format set by the user");
    }
}
template <typename T> std::string expected(const T& v, const std::ostream* fmt = nullptr) {
    std::ostringstream o;
    if (fmt) { o.precision(fmt->precision()); o.flags(fmt->flags()); o.fill(fmt->fill()); }
    ref(o, v);
    return o.str();
}
struct Printed { uint64_t sig = 0; };

template <typename Print> void onStream(Ctx& c, const char* name, Print print, const std::function<std::string(const std::ostream&)>& want) {
    sim::SimOut sb;
    if (c.chance(1, 2, "buffered")) sb.setBuffer(1 + c.pick(64, "buffer"));
    std::ostream o(&sb);
    drawFormat(c, o, true);
    auto flags = o.flags(); auto prec = o.precision(); auto fill = o.fill();
    std::string w = want(o);
    int failure = c.pick(3, "failure"); // none, state, exception
    size_t at = sim::SimOut::npos;
    if (failure) {
        at = c.pick(w.size() + 2, "position");
        sb.failAt = at;
        sb.throwing = c.chance(1, 2, "buffer throws");
        if (failure == 2) o.exceptions(std::ios::badbit);
    }
    bool threw = false;
    try { print(o); o.flush(); } catch (const std::exception&) { threw = true; }
    c.ev("print %s: %zu of %zu bytes%s", name, sb.got.size(), w.size(), threw ? ", exception" : "");
    bool cut = failure && at < w.size();
    if (!cut) {
        if (threw) c.violate("spurious-error", "printing %s to a working stream threw", name);
        if (!o.good()) c.violate("spurious-error", "printing %s left a working stream in state %d", name, (int)o.rdstate());
        if (sb.got != w) c.violate("wrong-text", "%s printed as %s instead of %s", name, sim::printable(sb.got, 300).c_str(), sim::printable(w, 300).c_str());
    } else {
        c.probe(failure == 2 ? "stream fails with an exception" : "stream fails silently");
        if (sb.got != w.substr(0, at)) c.violate("wrong-prefix", "%s on a stream failing after %zu bytes printed %s instead of a prefix of %s", name, at, sim::printable(sb.got, 300).c_str(), sim::printable(w, 300).c_str());
        if (o.good()) c.violate("lost-error", "the state of the stream does not show the failure after printing %s", name);
        if (failure == 2 && !threw) c.violate("lost-error", "the exception of the stream was swallowed when printing %s", name);
    }
    if (!threw && (o.flags() != flags || o.precision() != prec || o.fill() != fill)) c.violate("changed-format", "printing %s changed the format of the stream", name);
}

static void onStdout(Ctx& c, const char* name, const std::function<void()>& print, const std::string& w) {
    sim::enterScratch(c);
    fflush(stdout);
    int keep = dup(1);
    FILE* f = freopen("out.txt", "w", stdout);
    if (!f) return;
    bool full = c.chance(1, 3, "full file");
    size_t at = full ? c.pick(w.size() + 1, "position") : w.size();
    static char buf[4096];
    static const size_t sz[] = {4096, 0, 16};
    size_t b = sz[c.pick(3, "stdio buffer")];
    setvbuf(stdout, b ? buf : nullptr, b ? _IOFBF : _IONBF, b);
    if (full) sim::FileSim::kernelLimit(at);
    print();
    fflush(stdout);
    if (full) sim::FileSim::kernelUnlimit();
    std::string got;
    sim::readFile("out.txt", got);
    dup2(keep, 1); close(keep);
    clearerr(stdout);
    c.ev("printf %s: %zu of %zu bytes", name, got.size(), w.size());
    if (full && at < w.size()) {
        c.probe("stdout is full");
        // stdio drops what did not fit; what arrived is in order
        if (w.compare(0, std::min(got.size(), at), got, 0, std::min(got.size(), at)) != 0) c.violate("wrong-prefix", "%s by printf into a full file printed %s instead of a prefix of %s", name, sim::printable(got, 300).c_str(), sim::printable(w, 300).c_str());
    } else if (got != w) c.violate("wrong-text", "%s printed by printf as %s instead of %s", name, sim::printable(got, 300).c_str(), sim::printable(w, 300).c_str());
}

static std::string strip(const std::string& s, bool& any) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '\033') { any = true; while (i < s.size() && s[i] != 'm') i++; } else r += s[i];
    }
    return r;
}
template <typename T, bool C> struct Stdio { static void run(Ctx& c, const char* n, const T& v) { onStdout(c, n, [&] { VariableExport::exportVariable(v); }, expected(v)); } };
template <typename T> struct Stdio<T, false> { static void run(Ctx&, const char*, const T&) {} };

template <typename T, bool StdioToo> void value(Ctx& c, const char* name, bool text, uint64_t& sig) {
    T v{};
    gen15(c, v);
    if (StdioToo && c.chance(1, 4, "printf")) {
        std::string w = expected(v);
        if (w.find('\0') != w.npos) { c.probe("text with zero byte"); return; } // printf text ends at zero
        Stdio<T, StdioToo>::run(c, name, v);
    } else if (c.chance(1, 4, "console")) {
        // console logger: two variables, one of them a number
        ConsoleLogger log;
        bool col = c.chance(1, 2, "colours"), agg = c.chance(1, 2, "aggregated"), onlyName = c.chance(1, 2, "only name"), fun = c.chance(1, 2, "function");
        log.setColoredOutput(col); log.setPrintAggregated(agg); log.setOnlyFliename(onlyName); log.setPrintFunction(fun);
        int other = (int)c.pick(1000, "number"), line = 1 + (int)c.pick(5000, "line");
        bool msg = c.chance(1, 4, "message");
        std::string w, head = std::string(onlyName ? "file.cpp" : "/a/dir/file.cpp") + ":" + std::to_string(line) + (fun ? " <func> " : "");
        std::string ids = log.getIdentation();
        if (msg) {
            w = "++" + head + "==> " + expected(v) + " <==\n" + "++" + head + "==> " + std::to_string(other) + " <==\n";
        } else {
            if (agg) w = "== " + head + "\n";
            auto var = [&](const std::string& n, const std::string& t) { w += (agg ? ids : "== " + head + " ") + "[[ " + n + " ]] ==> " + t + "\n"; };
            var("v", expected(v)); var("other", std::to_string(other)); var("v again", expected(v));
        }
        sim::SimOut sb;
        size_t at = sim::SimOut::npos;
        bool fails = !col && c.chance(1, 3, "console fails");
        if (fails) { at = c.pick(w.size(), "position"); sb.failAt = at; c.probe("console fails"); }
        std::streambuf* keep = std::cerr.rdbuf(&sb);
        auto flags = std::cerr.flags(); auto prec = std::cerr.precision(); auto fill = std::cerr.fill();
        if (msg) log.writeMessage("++", line, "func", "/a/dir/file.cpp", v, other);
        else log.writeVariable(line, "func", "/a/dir/file.cpp", "v", v, "other", other, "v again", v);
        std::cerr.rdbuf(keep);
        if (std::cerr.flags() != flags || std::cerr.precision() != prec || std::cerr.fill() != fill) c.violate("changed-format", "logging %s changed the format of the console", name);
        bool colour = false;
        std::string got = strip(sb.got, colour);
        c.ev("console log of %s: %zu of %zu bytes", name, got.size(), w.size());
        bool raw = expected(v).find('\033') == std::string::npos;
        if (!raw) return;
        if (colour != col) c.violate("wrong-colours", "colours are %s but the output %s colour codes", col ? "on" : "off", colour ? "has" : "has no");
        if (!fails && got != w) c.violate("wrong-text", "console log of %s is %s instead of %s", name, sim::printable(got, 400).c_str(), sim::printable(w, 400).c_str());
        if (fails && got != w.substr(0, at)) c.violate("wrong-prefix", "console log of %s failing after %zu bytes is %s instead of a prefix of %s", name, at, sim::printable(got, 400).c_str(), sim::printable(w, 400).c_str());
    } else {
        onStream(c, name, [&](std::ostream& o) { VariableExport::exportVariable(o, v); }, [&](const std::ostream& o) { return expected(v, &o); });
    }
    if (text) sig = sim::mix64(sig, sim::hashStr(name, sim::hashStr(expected(v))));
}

template <typename T> void bound(Ctx& c, const char* name, uint64_t& sig) {
    T v{};
    gen15(c, v);
    auto tr = makeTraits<NoTraits>("c", &NoTraits::c, "num", &NoTraits::b);
    auto b = bindTraits(v, tr);
    std::string w = expected(v);
    if (c.chance(1, 3, "printf") && w.find('\0') == w.npos) onStdout(c, name, [&] { VariableExport::exportVariable(b); }, w);
    else onStream(c, name, [&](std::ostream& o) { VariableExport::exportVariable(o, b); }, [&](const std::ostream& o) { return expected(v, &o); });
    c.probe("bound traits");
    sig = sim::mix64(sig, sim::hashStr(w));
}
// the printf form shows the bytes of a type without description in capitals and without the name
static void bytes(Ctx& c, uint64_t& sig) {
    std::vector<Opaque> v(1 + c.pick(3, "length"));
    bool one = c.chance(1, 2, "single");
    std::string w;
    for (auto& x : v) {
        gen15(c, x);
        std::string t;
        for (int k = 0; k < 6; k++) { char h[4]; snprintf(h, sizeof h, k ? " %02X" : "%02X", x.b[k]); t += h; }
        if (one) { w = t; break; }
        w += (w.empty() ? "[ " : ", ") + t;
    }
    if (!one) w += " ]";
    onStdout(c, one ? "type without description" : "vector of a type without description", [&] { if (one) VariableExport::exportVariable(v[0]); else VariableExport::exportVariable(v); }, w);
    sig = sim::mix64(sig, sim::hashStr(w));
}
// data of a mesh: one array for each dimension, in the order of the declaration
template <unsigned I, typename DC, typename M, typename F> std::enable_if_t<(I == Traits<DC>::size())> fillAll(DC&, const M&, F) {}
template <unsigned I, typename DC, typename M, typename F> std::enable_if_t<(I < Traits<DC>::size())> fillAll(DC& d, const M& m, F f) { f(d.template getDataByPos<I>(), m[I]); fillAll<I + 1>(d, m, f); }
template <typename T, unsigned... D> void meshData(Ctx& c, const char* name, uint64_t& sig) {
    MeshDataContainer<T, D...> d;
    const unsigned dims[] = {D...};
    std::vector<std::vector<T>> model(sizeof...(D));
    for (auto& x : model) gen15(c, x);
    auto fill = [&](auto& arr, const std::vector<T>& m) { arr.clear(); for (const auto& x : m) arr.push_back(x); };
    fillAll<0>(d, model, fill);
    auto want = [&](const std::ostream* f) {
        std::ostringstream o;
        if (f) { o.precision(f->precision()); o.flags(f->flags()); o.fill(f->fill()); }
        o << "{ ";
        for (size_t i = 0; i < model.size(); i++) { o << (i ? ", " : "") << "\"dim " << std::to_string(dims[i]) << "\" : "; ref(o, model[i]); }
        o << " }";
        return o.str();
    };
    std::string w = want(nullptr);
    if (c.chance(1, 3, "printf") && w.find('\0') == w.npos) onStdout(c, name, [&] { VariableExport::exportVariable(d); }, w);
    else onStream(c, name, [&](std::ostream& o) { VariableExport::exportVariable(o, d); }, [&](const std::ostream& o) { return want(&o); });
    c.probe("data of a mesh printed");
    sig = sim::mix64(sig, sim::hashStr(w, sizeof...(D)));
}
void simRun(Ctx& c) {
    size_t n = 1 + c.pick(3, "values");
    uint64_t sig = 0;
    for (size_t i = 0; i < n; i++) {
        c.step();
        switch (c.pick(39, "type")) {
        case 0: value<int, true>(c, "int", false, sig); break;
        case 1: value<double, true>(c, "double", false, sig); break;
        case 2: value<bool, true>(c, "bool", false, sig); break;
        case 3: value<std::string, true>(c, "string", false, sig); break;
        case 4: value<char, true>(c, "char", false, sig); break;
        case 5: value<const char*, true>(c, "const char*", false, sig); break;
        case 6: value<unsigned long, false>(c, "unsigned long", false, sig); break;
        case 7: value<unsigned long long, true>(c, "unsigned long long", false, sig); break;
        case 8: value<float, true>(c, "float", false, sig); break;
        case 9: value<std::vector<int>, true>(c, "vector<int>", true, sig); break;
        case 10: value<std::vector<std::vector<double>>, true>(c, "vector<vector<double>>", true, sig); break;
        case 11: value<std::list<std::string>, true>(c, "list<string>", true, sig); break;
        case 12: value<std::set<int>, true>(c, "set<int>", true, sig); break;
        case 13: value<std::map<std::string, std::vector<int>>, true>(c, "map<string, vector<int>>", true, sig); break;
        case 14: value<std::pair<int, std::string>, true>(c, "pair<int, string>", true, sig); break;
        case 15: value<std::tuple<int, std::string, double>, true>(c, "tuple<int, string, double>", true, sig); break;
        case 16: value<std::array<double, 3>, true>(c, "array<double, 3>", true, sig); break;
        case 17: value<std::valarray<double>, true>(c, "valarray<double>", true, sig); break;
        case 18: value<Vector<3, double>, true>(c, "Vector<3>", true, sig); break;
        case 19: value<Vertex<2, double>, true>(c, "Vertex<2>", true, sig); break;
        case 20: value<Inner, true>(c, "struct with traits", true, sig); break;
        case 21: value<Outer, true>(c, "nested struct with traits", true, sig); break;
        case 22: value<Single, false>(c, "struct with one member", true, sig); break;
        case 23: value<WithOp, false>(c, "type with operator<<", false, sig); break;
        case 24: value<WithPrintTo, true>(c, "type with PrintTo", false, sig); break;
        case 25: value<Opaque, false>(c, "type without description", false, sig); break;
        case 26: value<std::vector<Outer>, true>(c, "vector of structs", true, sig); break;
        case 27: value<std::vector<std::pair<char, std::map<int, bool>>>, true>(c, "vector<pair<char, map>>", true, sig); break;
        case 30: value<unsigned int, true>(c, "unsigned int", false, sig); break;
        case 31: value<short, true>(c, "short", false, sig); break;
        case 32: value<unsigned short, true>(c, "unsigned short", false, sig); break;
        case 33: value<long long, true>(c, "long long", false, sig); break;
        case 34: value<long double, true>(c, "long double", false, sig); break;
        case 35: value<std::vector<unsigned int>, true>(c, "vector<unsigned int>", true, sig); break;
        case 36: value<std::map<short, std::vector<long long>>, true>(c, "map<short, vector<long long>>", true, sig); break;
        case 37: bytes(c, sig); break;
        case 38:
            switch (c.pick(5, "mesh data")) {
            case 0: meshData<double, 3>(c, "data of cells", sig); break;
            case 1: meshData<int, 0, 3>(c, "data of vertices and cells", sig); break;
            case 2: meshData<Inner, 2, 0, 1>(c, "structures on faces, vertices and edges", sig); break;
            case 3: meshData<std::string, 7, 10, 100>(c, "data of dimensions 7, 10 and 100", sig); break;
            case 4: meshData<std::vector<int>, 105, 42, 999, 3>(c, "data of dimensions 105, 42, 999 and 3", sig); break;
            }
            break;
        case 28: { // a value which throws in the middle
            std::vector<Bomb> v(1 + c.pick(5, "length"));
            int at = (int)c.pick(v.size() + 1, "throwing element") - 1;
            for (size_t k = 0; k < v.size(); k++) { v[k].id = (int)k; v[k].at = at; }
            sim::SimOut sb;
            std::ostream o(&sb);
            bool threw = false;
            try { VariableExport::exportVariable(o, v); } catch (const ThrownByType& e) { threw = true; if (e.id != at) c.violate("lost-exception", "another exception"); }
            if (threw != (at >= 0)) c.violate("lost-exception", "the exception of the printed value %s", threw ? "came from nowhere" : "was lost");
            std::string w = expected(v);
            if (at >= 0) { w = "[ "; for (int k = 0; k < at; k++) w += "bomb" + std::to_string(k) + ", "; w += "bo"; c.probe("printed value throws"); }
            if (sb.got != w) c.violate("wrong-text", "printed %s instead of %s", sb.got.c_str(), w.c_str());
            break;
        }
        case 29: // traits given for the occasion
            switch (c.pick(8, "bound")) {
            case 0: bound<NoTraits>(c, "value with bound traits", sig); break;
            case 1: bound<std::vector<NoTraits>>(c, "vector with bound traits", sig); break;
            case 2: bound<std::list<NoTraits>>(c, "list with bound traits", sig); break;
            case 3: bound<std::map<int, NoTraits>>(c, "map with bound traits", sig); break;
            case 4: bound<std::pair<NoTraits, std::vector<NoTraits>>>(c, "pair with bound traits", sig); break;
            case 5: bound<std::tuple<int, NoTraits, std::vector<NoTraits>>>(c, "tuple with bound traits", sig); break;
            case 6: bound<std::valarray<NoTraits>>(c, "valarray with bound traits", sig); break;
            case 7: bound<WithNoTraits>(c, "structure with bound traits of its members", sig); break;
            }
            break;
        }
    }
    c.state(sig);
    if (sig) c.nontrivial(sig);
}
