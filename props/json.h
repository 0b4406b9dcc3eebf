// A strict JSON reader (and a relaxed mode for JavaScript array literals).
#ifndef VERIF_JSON_H
#define VERIF_JSON_H
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <cstdlib>
namespace json {
struct Node {
    char kind = '?'; // n number, s string, b bool, 0 null, a array, o object
    double num = 0; bool bit = false; std::string str, raw;
    std::vector<Node> items;
    std::vector<std::pair<std::string, Node>> fields;
    const Node* get(const char* n) const { for (auto& f : fields) if (f.first == n) return &f.second; return nullptr; }
};
struct Parser {
    const std::string& t; size_t p; bool js; std::string err;
    Parser(const std::string& s, size_t at, bool relaxed) : t(s), p(at), js(relaxed) {}
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
    bool fail(const std::string& m) { if (err.empty()) err = m + " at byte " + std::to_string(p) + ": " + t.substr(p > 20 ? p - 20 : 0, 60); return false; }
    bool string(std::string& r) {
        if (p >= t.size() || (t[p] != '"' && !(js && t[p] == '\''))) return fail("a string expected");
        char q = t[p++];
        r.clear();
        while (true) {
            if (p >= t.size()) return fail("unfinished string");
            unsigned char c = t[p++];
            if (c == (unsigned char)q) return true;
            if (c < 32) return fail("control character in a string");
            if (c == '\\') {
                if (p >= t.size()) return fail("unfinished string");
                char e = t[p++];
                switch (e) {
                case '"': case '\\': case '/': r += e; break;
                case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break;
                case 'u': { if (p + 4 > t.size()) return fail("bad escape"); r += (char)strtol(t.substr(p, 4).c_str(), nullptr, 16); p += 4; break; }
                default: if (js && e == '\'') { r += e; break; } return fail("bad escape");
                }
            } else r += (char)c;
        }
    }
    bool number(Node& n) {
        size_t b = p;
        if (p < t.size() && t[p] == '-') p++;
        size_t d = p;
        while (p < t.size() && isdigit((unsigned char)t[p])) p++;
        if (p == d || (t[d] == '0' && p - d > 1)) return fail("bad number");
        if (p < t.size() && t[p] == '.') { p++; d = p; while (p < t.size() && isdigit((unsigned char)t[p])) p++; if (p == d) return fail("bad number"); }
        if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { p++; if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++; d = p; while (p < t.size() && isdigit((unsigned char)t[p])) p++; if (p == d) return fail("bad number"); }
        n.kind = 'n'; n.raw = t.substr(b, p - b); n.num = strtod(n.raw.c_str(), nullptr);
        return true;
    }
    bool value(Node& n, int depth = 0) {
        if (depth > 100) return fail("too deep");
        ws();
        if (p >= t.size()) return fail("a value expected");
        char c = t[p];
        if (c == '"' || (js && c == '\'')) { n.kind = 's'; return string(n.str); }
        if (c == '-' || isdigit((unsigned char)c)) return number(n);
        if (t.compare(p, 4, "true") == 0) { n.kind = 'b'; n.bit = true; p += 4; return true; }
        if (t.compare(p, 5, "false") == 0) { n.kind = 'b'; p += 5; return true; }
        if (t.compare(p, 4, "null") == 0) { n.kind = '0'; p += 4; return true; }
        if (c == '[') {
            n.kind = 'a'; p++; ws();
            if (p < t.size() && t[p] == ']') { p++; return true; }
            while (true) {
                n.items.emplace_back();
                if (!value(n.items.back(), depth + 1)) return false;
                ws();
                if (p >= t.size()) return fail("unfinished array");
                if (t[p] == ']') { p++; return true; }
                if (t[p] != ',') return fail("',' or ']' expected");
                p++; ws();
                if (js && p < t.size() && t[p] == ']') { p++; return true; }
            }
        }
        if (c == '{') {
            n.kind = 'o'; p++; ws();
            if (p < t.size() && t[p] == '}') { p++; return true; }
            while (true) {
                ws();
                std::string k;
                if (!string(k)) return false;
                for (auto& f : n.fields) if (f.first == k) return fail("repeated key");
                ws();
                if (p >= t.size() || t[p] != ':') return fail("':' expected");
                p++;
                n.fields.emplace_back(k, Node());
                if (!value(n.fields.back().second, depth + 1)) return false;
                ws();
                if (p >= t.size()) return fail("unfinished object");
                if (t[p] == '}') { p++; return true; }
                if (t[p] != ',') return fail("',' or '}' expected");
                p++;
            }
        }
        return fail("a value expected");
    }
};
inline std::string parse(const std::string& t, Node& n) {
    Parser p(t, 0, false);
    if (!p.value(n)) return p.err;
    p.ws();
    if (p.p != t.size()) { p.fail("text after the document"); return p.err; }
    return "";
}
} // namespace json
#endif
