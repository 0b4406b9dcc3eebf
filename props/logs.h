// Log entries and values shared by the checks of the JSON and HTML logs.
#ifndef VERIF_LOGS_H
#define VERIF_LOGS_H
#include "sim.h"
#include "fileio.h"
#include "json.h"
#include <cmath>
#include <fstream>
#include <iostream>
#include <memory>
#include <vector>
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/NumericStaticArray/Vector.h>
struct LogStruct { double a; int b; std::vector<int> c; };
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(LogStruct, "first", a, "second", b, "list", c);
namespace logs {
using sim::Ctx;
/// expected value as a tree
inline json::Node num(double v) { json::Node n; n.kind = 'n'; n.num = v; return n; }
inline bool sameNumber(double a, double b) { char x[64]; snprintf(x, sizeof x, "%.6g", b); return a == strtod(x, nullptr); }
inline bool same(const json::Node& got, const json::Node& want) {
    if (got.kind != want.kind) return false;
    switch (want.kind) {
    case 'n': return sameNumber(got.num, want.num);
    case 's': return got.str == want.str;
    case 'b': return got.bit == want.bit;
    case 'a': if (got.items.size() != want.items.size()) return false;
        for (size_t i = 0; i < want.items.size(); i++) if (!same(got.items[i], want.items[i])) return false;
        return true;
    case 'o': if (got.fields.size() != want.fields.size()) return false;
        for (size_t i = 0; i < want.fields.size(); i++) { if (got.fields[i].first != want.fields[i].first || !same(got.fields[i].second, want.fields[i].second)) return false; }
        return true;
    }
    return false;
}
inline double number(Ctx& c) {
    switch (c.pick(4, "number")) {
    case 0: return (double)c.pick(100, "value");
    case 1: return ((double)c.pick(2000001, "value") - 1000000) / 128.0;
    case 2: { static const double s[] = {0.0, -0.0, 1e-300, 1e300, -1e20, 0.1, 123456789.0, 1e-5}; return s[c.pick(8, "value")]; }
    default: return -(double)c.pick(1000, "value") / 7;
    }
}
inline std::string text(Ctx& c) {
    static const char letters[] = "abcXYZ 0189_-+*/<>=()[]{}.,:;!?#$%&|@^~";
    std::string s;
    size_t n = c.pick(8, "length");
    for (size_t i = 0; i < n; i++) s += letters[c.pick(sizeof letters - 1, "letter")];
    return s;
}
inline void drawV(Ctx& c, int& v, json::Node& n) { v = (int)c.pick(20001, "int") - 10000; n = num(v); }
inline void drawV(Ctx& c, unsigned long& v, json::Node& n) { v = c.pick(100000, "unsigned"); n = num((double)v); }
inline void drawV(Ctx& c, double& v, json::Node& n) { v = number(c); n = num(v); }
inline void drawV(Ctx& c, bool& v, json::Node& n) { v = c.chance(1, 2, "bool"); n = json::Node(); n.kind = 'b'; n.bit = v; }
inline void drawV(Ctx& c, std::string& v, json::Node& n) { v = text(c); n = json::Node(); n.kind = 's'; n.str = v; }
inline void drawV(Ctx& c, LogStruct& v, json::Node& n);
template <typename T> void drawV(Ctx& c, std::vector<T>& v, json::Node& n) {
    v.clear(); n = json::Node(); n.kind = 'a';
    size_t k = c.pick(4, "length");
    for (size_t i = 0; i < k; i++) { T x; json::Node m; drawV(c, x, m); v.push_back(x); n.items.push_back(m); }
}
inline void drawV(Ctx& c, Vector<3, double>& v, json::Node& n) {
    n = json::Node(); n.kind = 'a';
    for (int i = 0; i < 3; i++) { json::Node m; drawV(c, v[i], m); n.items.push_back(m); }
}
inline void drawV(Ctx& c, LogStruct& v, json::Node& n) {
    n = json::Node(); n.kind = 'o';
    json::Node m; drawV(c, v.a, m); n.fields.emplace_back("first", m);
    drawV(c, v.b, m); n.fields.emplace_back("second", m);
    drawV(c, v.c, m); n.fields.emplace_back("list", m);
}
struct Entry { bool hasLine; int line; std::string file, expr; json::Node data; size_t call; };
inline std::string exprText(Ctx& c, bool special) {
    static const char* e[] = {"x", "a.b", "vec[3]", "f(x, y)", "p->q", "std::vector<int>{1, 2}", "a + b*c", "x ? 1 : 2", "m[\"key\"]", "\"text\"", "c == '\\n'"};
    if (c.chance(1, 3, "any expression")) {
        static const char plain[] = "abcnrtuvx019_ []().,:;<>=+-*&|!?\"\\'/";
        std::string s;
        size_t n = c.pick(12, "length");
        for (size_t i = 0; i < n; i++) s += plain[c.pick(sizeof plain - 1 - (special ? 0 : 4), "letter")];
        return s;
    }
    return e[c.pick(special ? 11 : 8, "expression")];
}
inline std::string fileText(Ctx& c) {
    static const char* f[] = {"main.cpp", "/home/user/src/a b.cpp", "C:\\src\\main.cpp", "\\\\server\\x.cpp", "dir\\", "..\\..\\t.cpp", "", "\\"};
    if (c.chance(1, 3, "any path")) {
        static const char letters[] = "abefnrtuvxz019 ._-";
        std::string s;
        size_t n = 1 + c.pick(4, "parts");
        for (size_t i = 0; i < n; i++) {
            s += c.chance(2, 3, "separator") ? "\\" : "/";
            size_t l = c.pick(5, "length");
            for (size_t k = 0; k < l; k++) s += letters[c.pick(sizeof letters - 1, "letter")];
        }
        return s;
    }
    return f[c.pick(8, "source file")];
}
/// A value of any of the kinds, with a generic visitor.
template <typename F> void withValue(Ctx& c, F f) {
    json::Node n;
    switch (c.pick(10, "kind of value")) {
    case 0: { int v; drawV(c, v, n); f(v, n); break; }
    case 1: { double v; drawV(c, v, n); f(v, n); break; }
    case 2: { std::string v; drawV(c, v, n); f(v, n); break; }
    case 3: { std::vector<int> v; drawV(c, v, n); f(v, n); break; }
    case 4: { std::vector<std::vector<double>> v; drawV(c, v, n); f(v, n); break; }
    case 5: { bool v; drawV(c, v, n); f(v, n); break; }
    case 6: { std::vector<std::string> v; drawV(c, v, n); f(v, n); break; }
    case 7: { Vector<3, double> v; drawV(c, v, n); f(v, n); break; }
    case 8: { LogStruct v; drawV(c, v, n); f(v, n); break; }
    case 9: { std::vector<LogStruct> v; drawV(c, v, n); f(v, n); break; }
    }
}
inline sim::FilePlan quiet(Ctx& c) {
    sim::FilePlan p;
    static const uint64_t sz[] = {0, 1, 3, 17, 100, 4096};
    p.shortWriteMax = sz[c.pick(6, "short write size")];
    if (c.chance(1, 4, "global locale")) { p.locale = 1 + (int)c.pick(sim::FileSim::locales - 1, "which"); c.ev("global locale: %s", sim::FileSim::localeName(p.locale)); }
    if (c.chance(1, 3, "interrupted calls")) p.eintrEvery = 1 + c.pick(5, "interrupt period");
    return p;
}
/// A complete JSON log with these entries
inline void checkJson(Ctx& c, const std::string& file, const std::vector<Entry>& want) {
    std::string t;
    if (!sim::readFile(file.c_str(), t)) c.violate("no-file", "there is no log file %s", file.c_str());
    json::Node n;
    std::string e = json::parse(t, n);
    if (!e.empty()) c.violate("malformed-log", "the log is not valid JSON: %s", sim::printable(e, 300).c_str());
    const json::Node* logs = n.get("logs");
    if (n.kind != 'o' || !logs || logs->kind != 'a') c.violate("malformed-log", "the document has no array of logs");
    if (logs->items.size() != want.size()) c.violate("lost-entries", "the log has %zu entries, %zu expressions were logged", logs->items.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) {
        const json::Node& x = logs->items[i];
        const Entry& w = want[i];
        const json::Node *ex = x.get("expr"), *d = x.get("data"), *l = x.get("line"), *f = x.get("file"), *g = x.get("gInd");
        if (!ex || ex->kind != 's' || ex->str != w.expr) c.violate("wrong-entry", "entry %zu has the expression '%s' instead of '%s'", i, ex ? ex->str.c_str() : "(none)", w.expr.c_str());
        if (!d || !same(*d, w.data)) c.violate("wrong-value", "entry %zu (%s) has another value than was logged", i, w.expr.c_str());
        if (w.hasLine) {
            if (!l || l->kind != 'n' || l->num != w.line) c.violate("wrong-entry", "entry %zu has line %g instead of %d", i, l ? l->num : -1, w.line);
            if (!f || f->kind != 's' || f->str != w.file) c.violate("wrong-entry", "entry %zu has file '%s' instead of '%s'", i, f ? f->str.c_str() : "(none)", w.file.c_str());
            if (!g || g->kind != 'n') c.violate("wrong-entry", "entry %zu has no group", i);
            for (size_t j = 0; j < i; j++) if (want[j].hasLine) {
                bool sameGroup = logs->items[j].get("gInd")->num == g->num;
                if (sameGroup != (want[j].call == w.call)) c.violate("wrong-group", "entries %zu and %zu of %s have %s groups", j, i, want[j].call == w.call ? "one call" : "two calls", sameGroup ? "equal" : "different");
            }
        }
    }
}
/// A complete HTML log with these entries
inline void checkHtml(Ctx& c, const std::string& file, const std::vector<Entry>& want) {
    std::string t;
    if (!sim::readFile(file.c_str(), t)) c.violate("no-file", "there is no log file %s", file.c_str());
    std::vector<std::string> open;
    size_t p = 0, found = 0;
    json::Node data;
    bool htmlSeen = false;
    while (p < t.size()) {
        if (t[p] != '<') { p++; continue; }
        size_t e = t.find('>', p);
        if (e == t.npos) c.violate("malformed-log", "the log ends inside of a tag");
        std::string tag = t.substr(p + 1, e - p - 1);
        p = e + 1;
        bool close = !tag.empty() && tag[0] == '/', self = !tag.empty() && tag.back() == '/';
        std::string name;
        for (char ch : tag.substr(close)) { if (!isalnum((unsigned char)ch)) break; name += ch; }
        if (close) {
            if (open.empty() || open.back() != name) c.violate("malformed-log", "</%s> closes %s", name.c_str(), open.empty() ? "nothing" : open.back().c_str());
            open.pop_back();
        } else if (!self && name != "input" && name != "br" && name != "hr") open.push_back(name);
        if (name == "html" && !close) htmlSeen = true;
        if (name == "script" && !close) {
            size_t end = t.find("</script>", p);
            if (end == t.npos) c.violate("malformed-log", "a script is not closed: the log is incomplete");
            std::string s = t.substr(p, end - p);
            p = end;
            size_t at = s.find("data = [");
            if (at != s.npos && (at == 0 || isspace((unsigned char)s[at - 1]))) {
                json::Parser ps(s, at + 7, true);
                data = json::Node();
                if (!ps.value(data)) c.violate("malformed-log", "the records are malformed: %s", sim::printable(ps.err, 300).c_str());
                found++;
            }
        }
    }
    if (!htmlSeen || !open.empty()) c.violate("malformed-log", "the element %s is not closed: the log is incomplete", open.empty() ? "html" : open.back().c_str());
    if (found != 1) c.violate("malformed-log", "the log has %zu data arrays", found);
    if (data.items.size() != want.size()) c.violate("lost-records", "the log has %zu records, %zu expressions were logged", data.items.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) {
        const json::Node& r = data.items[i];
        const Entry& w = want[i];
        if (r.kind != 'a' || r.items.size() != 5) c.violate("malformed-log", "record %zu has not 5 items", i);
        if (r.items[1].num != w.line) c.violate("wrong-record", "record %zu has line %g instead of %d", i, r.items[1].num, w.line);
        if (r.items[2].str != w.file) c.violate("wrong-record", "record %zu has file '%s' instead of '%s'", i, r.items[2].str.c_str(), w.file.c_str());
        if (r.items[3].str != w.expr) c.violate("wrong-record", "record %zu has the expression '%s' instead of '%s'", i, r.items[3].str.c_str(), w.expr.c_str());
        if (!same(r.items[4], w.data)) c.violate("wrong-value", "record %zu (%s) has another value than was logged", i, w.expr.c_str());
        for (size_t j = 0; j < i; j++) {
            bool sameGroup = data.items[j].items[0].num == r.items[0].num;
            if (sameGroup != (want[j].call == w.call)) c.violate("wrong-group", "records %zu and %zu of %s have %s groups", j, i, want[j].call == w.call ? "one call" : "two calls", sameGroup ? "equal" : "different");
        }
    }
}
} // namespace logs
#endif
