// Values of all kinds for the binary serializer, with their operations behind one interface.
#ifndef VERIF_SERIAL_H
#define VERIF_SERIAL_H
#include "sim.h"
#include "fileio.h"
#include <array>
#include <cstring>
#include <deque>
#include <cmath>
#include <fstream>
#include <limits>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <vector>
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/NumericStaticArray/Vector.h>

namespace serial {
using sim::Ctx;
enum class Colour : short { red = -3, green = 7, blue = 1000 };
struct Plain { double a; int b; unsigned char c; };
struct Nested { std::string name; std::vector<Plain> list; std::map<int, std::string> m; Plain p; };
struct Custom { std::string s; int n; };
/// writes its name, then may throw
struct Thrower { std::string s; bool fail; };
struct ThrownByType { int id; };
}
MAKE_ATTRIBUTE_TRAIT(serial::Plain, a, b, c);
MAKE_ATTRIBUTE_TRAIT(serial::Nested, name, list, m, p);
namespace serial {
inline void BinarySerialize(BinarySerializer::ByteContainer& d, const Custom& x) { BinarySerializer::addNext(d, x.n); BinarySerializer::addNext(d, x.s); }
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, Custom& x) { BinarySerializer::readNext(it, x.n); BinarySerializer::readNext(it, x.s); }
inline void BinarySerialize(BinarySerializer::ByteContainer& d, const Thrower& x) {
    BinarySerializer::addNext(d, x.s);
    if (x.fail) throw ThrownByType{42};
    BinarySerializer::addNext(d, int(7));
}
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, Thrower& x) { int k; BinarySerializer::readNext(it, x.s); BinarySerializer::readNext(it, k); x.fail = false; }

// equality (bitwise for numbers)
template <typename T> std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value, bool> same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
inline bool same(const std::string& a, const std::string& b) { return a == b; }
inline bool same(const Plain& a, const Plain& b) { return same(a.a, b.a) && a.b == b.b && a.c == b.c; }
inline bool same(const Custom& a, const Custom& b) { return a.s == b.s && a.n == b.n; }
inline bool same(const Thrower& a, const Thrower& b) { return a.s == b.s; }
template <typename A, typename B> bool same(const std::pair<A, B>& a, const std::pair<A, B>& b);
template <typename A, size_t N> bool same(const std::array<A, N>& a, const std::array<A, N>& b);
template <typename A> bool same(const std::vector<A>& a, const std::vector<A>& b);
template <typename A> bool same(const std::deque<A>& a, const std::deque<A>& b);
template <typename K, typename V> bool same(const std::map<K, V>& a, const std::map<K, V>& b);
template <typename K, typename V> bool same(const std::multimap<K, V>& a, const std::multimap<K, V>& b);
template <typename A> bool same(const std::set<A>& a, const std::set<A>& b);
template <typename A> bool same(const std::multiset<A>& a, const std::multiset<A>& b);
template <unsigned N> bool same(const Vector<N, double>& a, const Vector<N, double>& b);
template <typename C> bool sameSeq(const C& a, const C& b) {
    if (a.size() != b.size()) return false;
    auto i = a.begin(); auto j = b.begin();
    for (; i != a.end(); ++i, ++j) if (!same(*i, *j)) return false;
    return true;
}
template <unsigned N> bool same(const Vector<N, double>& a, const Vector<N, double>& b) { for (unsigned i = 0; i < N; i++) if (!same(a[i], b[i])) return false; return true; }
template <typename A, typename B> bool same(const std::pair<A, B>& a, const std::pair<A, B>& b) { return same(a.first, b.first) && same(a.second, b.second); }
template <typename A, size_t N> bool same(const std::array<A, N>& a, const std::array<A, N>& b) { return sameSeq(a, b); }
template <typename A> bool same(const std::vector<A>& a, const std::vector<A>& b) { return sameSeq(a, b); }
template <typename A> bool same(const std::deque<A>& a, const std::deque<A>& b) { return sameSeq(a, b); }
template <typename A> bool same(const std::valarray<A>& a, const std::valarray<A>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
template <typename A> bool same(const std::set<A>& a, const std::set<A>& b) { return sameSeq(a, b); }
template <typename A> bool same(const std::multiset<A>& a, const std::multiset<A>& b) { return sameSeq(a, b); }
template <typename A> bool same(const std::unordered_set<A>& a, const std::unordered_set<A>& b) { return a == b; }
template <typename K, typename V> bool same(const std::map<K, V>& a, const std::map<K, V>& b) { return sameSeq(a, b); }
template <typename K, typename V> bool same(const std::multimap<K, V>& a, const std::multimap<K, V>& b) { return sameSeq(a, b); }
template <typename K, typename V> bool same(const std::unordered_map<K, V>& a, const std::unordered_map<K, V>& b) { return a == b; }
template <typename A, typename B, typename C> bool same(const std::tuple<A, B, C>& a, const std::tuple<A, B, C>& b) { return same(std::get<0>(a), std::get<0>(b)) && same(std::get<1>(a), std::get<1>(b)) && same(std::get<2>(a), std::get<2>(b)); }
inline bool same(const Nested& a, const Nested& b) { return a.name == b.name && same(a.list, b.list) && same(a.m, b.m) && same(a.p, b.p); }

// generation
inline size_t len(Ctx& c) { size_t n = c.pick(5, "length"); if (n == 4 && c.chance(1, 4, "long")) n += c.pick(300, "length"); return n; }
inline void gen(Ctx& c, bool& v) { v = c.chance(1, 2, "bool"); }
template <typename T> std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value> gen(Ctx& c, T& v) {
    switch (c.pick(4, "integer")) {
    case 0: v = (T)c.pick(10, "value"); break;
    case 1: v = (T)((c.pick(1u << 31, "value") << 33) ^ (c.pick(1u << 31, "value") << 7) ^ c.pick(256, "value")); break;
    case 2: v = std::numeric_limits<T>::max(); break;
    case 3: v = std::numeric_limits<T>::min(); break;
    }
}
template <typename T> std::enable_if_t<std::is_floating_point<T>::value> gen(Ctx& c, T& v) {
    switch (c.pick(4, "number")) {
    case 0: v = (T)c.pick(100, "value"); break;
    case 1: v = (T)((double)c.pick(1u << 31, "value") / 1000003.0 - 100); break;
    case 2: { static const double s[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, 1e300, 5e-324}; v = (T)s[c.pick(7, "value")]; break; }
    case 3: v = std::numeric_limits<T>::epsilon() + 1; break;
    }
}
inline void gen(Ctx& c, std::string& v) {
    v.clear();
    if (c.chance(1, 100, "huge string")) { v.resize(200 + c.skew(100000, "length")); for (size_t i = 0; i < v.size(); i++) v[i] = (char)(i * 31 + i / 251); c.probe("huge strings"); return; }
    size_t n = len(c); for (size_t i = 0; i < n; i++) v += c.chance(1, 6, "any byte") ? (char)c.pick(256, "byte") : (char)('a' + c.pick(26, "letter")); }
inline void gen(Ctx& c, Colour& v) { static const Colour k[] = {Colour::red, Colour::green, Colour::blue}; v = k[c.pick(3, "enum")]; }
inline void gen(Ctx& c, Plain& v) { gen(c, v.a); gen(c, v.b); gen(c, v.c); }
inline void gen(Ctx& c, Custom& v) { gen(c, v.s); gen(c, v.n); }
inline void gen(Ctx& c, Thrower& v) { gen(c, v.s); v.fail = false; }
template <typename A, typename B> void gen(Ctx& c, std::pair<A, B>& v);
template <typename A, size_t N> void gen(Ctx& c, std::array<A, N>& v);
template <typename A> void gen(Ctx& c, std::vector<A>& v);
template <unsigned N> void gen(Ctx& c, Vector<N, double>& v);
template <typename A> void gen(Ctx& c, std::deque<A>& v);
template <typename K, typename V> void gen(Ctx& c, std::map<K, V>& v);
template <typename K, typename V> void gen(Ctx& c, std::multimap<K, V>& v);
template <typename A> void gen(Ctx& c, std::set<A>& v);
template <typename A> void gen(Ctx& c, std::multiset<A>& v);
template <unsigned N> void gen(Ctx& c, Vector<N, double>& v) { for (unsigned i = 0; i < N; i++) gen(c, v[i]); }
template <typename A, typename B> void gen(Ctx& c, std::pair<A, B>& v) { gen(c, v.first); gen(c, v.second); }
template <typename A, size_t N> void gen(Ctx& c, std::array<A, N>& v) { for (auto& x : v) gen(c, x); }
template <typename A> std::enable_if_t<std::is_arithmetic<A>::value, bool> genHuge(Ctx& c, std::vector<A>& v) {
    if (!c.chance(1, 100, "huge vector")) return false;
    v.resize(200 + c.skew(80000, "length"));
    for (size_t i = 0; i < v.size(); i++) v[i] = (A)(i * 37 % 1009);
    c.probe("huge vectors");
    return true;
}
template <typename A> std::enable_if_t<!std::is_arithmetic<A>::value, bool> genHuge(Ctx&, std::vector<A>&) { return false; }
template <typename A> void gen(Ctx& c, std::vector<A>& v) { v.clear(); if (genHuge(c, v)) return; v.resize(len(c)); for (auto& x : v) gen(c, x); }
template <typename A> void gen(Ctx& c, std::deque<A>& v) { v.clear(); v.resize(len(c)); for (auto& x : v) gen(c, x); }
template <typename A> void gen(Ctx& c, std::valarray<A>& v) { v.resize(len(c)); for (auto& x : v) gen(c, x); }
template <typename S> void genSet(Ctx& c, S& v) { v.clear(); size_t n = len(c); for (size_t i = 0; i < n; i++) { typename S::value_type x; gen(c, x); v.insert(x); } }
template <typename A> void gen(Ctx& c, std::set<A>& v) { genSet(c, v); }
template <typename A> void gen(Ctx& c, std::multiset<A>& v) { genSet(c, v); }
template <typename A> void gen(Ctx& c, std::unordered_set<A>& v) { genSet(c, v); }
template <typename M> void genMap(Ctx& c, M& v) { v.clear(); size_t n = len(c); for (size_t i = 0; i < n; i++) { typename M::key_type k; typename M::mapped_type x; gen(c, k); gen(c, x); v.insert(std::make_pair(k, x)); } }
template <typename K, typename V> void gen(Ctx& c, std::map<K, V>& v) { genMap(c, v); }
template <typename K, typename V> void gen(Ctx& c, std::multimap<K, V>& v) { genMap(c, v); }
template <typename K, typename V> void gen(Ctx& c, std::unordered_map<K, V>& v) { genMap(c, v); }
template <typename A, typename B, typename C> void gen(Ctx& c, std::tuple<A, B, C>& v) { gen(c, std::get<0>(v)); gen(c, std::get<1>(v)); gen(c, std::get<2>(v)); }
inline void gen(Ctx& c, Nested& v) { gen(c, v.name); gen(c, v.list); gen(c, v.m); gen(c, v.p); }

// something else, to be replaced by reading
struct Value {
    virtual ~Value() {}
    virtual const char* name() const = 0;
    virtual void write(BinarySerializer& s, int how) const = 0;
    virtual void writeTwice(BinarySerializer& s, const Value&) const {}
    virtual void append(std::vector<uint8_t>& v) const = 0;
    /// read and compare; returns false when the value differs
    virtual bool read(Ctx& c, BinarySerializer& s, int how) const = 0;
    virtual bool readRaw(Ctx& c, std::vector<uint8_t>::const_iterator& it) const = 0;
    /// variadic: this and an int
    virtual void writeWith(BinarySerializer& s, int x, const std::string& y) const = 0;
    virtual bool readWith(Ctx& c, BinarySerializer& s, int x, const std::string& y) const = 0;
};
template <typename T> struct Holder : Value {
    T v; const char* n;
    Holder(Ctx& c, const char* nm) : v(), n(nm) { gen(c, v); }
    const char* name() const override { return n; }
    void write(BinarySerializer& s, int how) const override { if (how == 0) s.write(v); else s << v; }
    void append(std::vector<uint8_t>& d) const override { BinarySerializer::addNext(d, v); }
    bool read(Ctx& c, BinarySerializer& s, int how) const override {
        if (how == 2) { T x = s.template read<T>(); return same(x, v); }
        T x{};
        if (c.chance(1, 2, "used target")) gen(c, x);
        if (how == 0) s.read(x); else s >> x;
        return same(x, v);
    }
    bool readRaw(Ctx& c, std::vector<uint8_t>::const_iterator& it) const override { T x{}; BinarySerializer::readNext(it, x); return same(x, v); }
    void writeWith(BinarySerializer& s, int x, const std::string& y) const override { s.write(x, v, y); }
    bool readWith(Ctx& c, BinarySerializer& s, int x, const std::string& y) const override {
        int a = 0; T b{}; std::string d = "old";
        s.read(a, b, d);
        return a == x && same(b, v) && d == y;
    }
};
inline const char* boundName() { return "structure with bound traits"; }
/// a structure written by bound traits: only the selected members
struct BoundHolder : Value {
    Plain v;
    decltype(makeTraits<Plain>("c", &Plain::c, "a", &Plain::a)) tr = makeTraits<Plain>("c", &Plain::c, "a", &Plain::a);
    explicit BoundHolder(Ctx& c) : v() { gen(c, v); }
    const char* name() const override { return boundName(); }
    void write(BinarySerializer& s, int) const override { Plain t = v; auto b = bindTraits(t, tr); s << b; }
    void append(std::vector<uint8_t>& d) const override { Plain t = v; auto b = bindTraits(t, tr); BinarySerializer::addNext(d, b); }
    bool read(Ctx&, BinarySerializer& s, int) const override { Plain t{1, 99, 3}; auto b = bindTraits(t, tr); s >> b; return same(t.a, v.a) && t.c == v.c && t.b == 99; }
    bool readRaw(Ctx&, std::vector<uint8_t>::const_iterator& it) const override { Plain t{1, 99, 3}; auto b = bindTraits(t, tr); BinarySerializer::readNext(it, b); return same(t.a, v.a) && t.c == v.c && t.b == 99; }
    void writeWith(BinarySerializer& s, int x, const std::string& y) const override { Plain t = v; auto b = bindTraits(t, tr); s.write(x, b, y); }
    bool readWith(Ctx&, BinarySerializer& s, int x, const std::string& y) const override { int a = 0; std::string d; Plain t{1, 99, 3}; auto b = bindTraits(t, tr); s.read(a, b, d); return a == x && same(t.a, v.a) && t.c == v.c && t.b == 99 && d == y; }
};
/// a list (of lists) of structures written by bound traits
struct BoundListHolder : Value {
    typedef std::vector<std::vector<Plain>> L;
    L v;
    decltype(makeTraits<Plain>("c", &Plain::c, "a", &Plain::a)) tr = makeTraits<Plain>("c", &Plain::c, "a", &Plain::a);
    explicit BoundListHolder(Ctx& c) : v() { gen(c, v); }
    const char* name() const override { return "lists with bound traits"; }
    bool ok(const L& t) const {
        if (t.size() != v.size()) return false;
        for (size_t i = 0; i < v.size(); i++) {
            if (t[i].size() != v[i].size()) return false;
            for (size_t j = 0; j < v[i].size(); j++) if (!same(t[i][j].a, v[i][j].a) || t[i][j].c != v[i][j].c) return false;
        }
        return true;
    }
    void write(BinarySerializer& s, int how) const override { L t = v; auto b = bindTraits(t, tr); if (how == 0) s.write(b); else s << b; }
    void append(std::vector<uint8_t>& d) const override { L t = v; auto b = bindTraits(t, tr); BinarySerializer::addNext(d, b); }
    bool read(Ctx& c, BinarySerializer& s, int how) const override { L t; if (c.chance(2, 3, "used target")) gen(c, t); auto b = bindTraits(t, tr); if (how == 0) s.read(b); else s >> b; return ok(t); }
    bool readRaw(Ctx&, std::vector<uint8_t>::const_iterator& it) const override { L t; auto b = bindTraits(t, tr); BinarySerializer::readNext(it, b); return ok(t); }
    void writeWith(BinarySerializer& s, int x, const std::string& y) const override { L t = v; auto b = bindTraits(t, tr); s.write(x, b, y); }
    bool readWith(Ctx&, BinarySerializer& s, int x, const std::string& y) const override { int a = 0; std::string d; L t(2); auto b = bindTraits(t, tr); s.read(a, b, d); return a == x && ok(t) && d == y; }
};
typedef std::shared_ptr<Value> P;
template <typename T> P mk(Ctx& c, const char* n) { return P(new Holder<T>(c, n)); }
#define SERIAL_KIND(T) &mkKind<T>
inline P genValue(Ctx& c) {
    switch (c.pick(37, "type")) {
    case 0: return mk<int>(c, "int");
    case 1: return mk<double>(c, "double");
    case 2: return mk<std::string>(c, "string");
    case 3: return mk<std::vector<int>>(c, "vector<int>");
    case 4: return mk<std::vector<std::string>>(c, "vector<string>");
    case 5: return mk<std::map<std::string, int>>(c, "map<string,int>");
    case 6: return mk<std::set<int>>(c, "set<int>");
    case 7: return mk<Plain>(c, "Plain");
    case 8: return mk<Nested>(c, "Nested");
    case 9: return mk<bool>(c, "bool");
    case 10: return mk<char>(c, "char");
    case 11: return mk<unsigned long>(c, "unsigned long");
    case 12: return mk<short>(c, "short");
    case 13: return mk<float>(c, "float");
    case 14: return mk<Colour>(c, "enum");
    case 15: return mk<std::vector<std::vector<double>>>(c, "vector<vector<double>>");
    case 16: return mk<std::vector<Plain>>(c, "vector<Plain>");
    case 17: return mk<std::map<int, std::vector<std::string>>>(c, "map<int,vector<string>>");
    case 18: return mk<std::pair<std::string, double>>(c, "pair<string,double>");
    case 19: return mk<std::tuple<int, std::string, float>>(c, "tuple<int,string,float>");
    case 20: return mk<std::array<short, 3>>(c, "array<short,3>");
    case 21: return mk<std::array<std::string, 2>>(c, "array<string,2>");
    case 22: return mk<std::deque<int>>(c, "deque<int>");
    case 23: return mk<std::valarray<double>>(c, "valarray<double>");
    case 24: return mk<std::set<std::string>>(c, "set<string>");
    case 25: return mk<std::multiset<int>>(c, "multiset<int>");
    case 26: return mk<std::unordered_map<int, std::string>>(c, "unordered_map<int,string>");
    case 27: return mk<std::multimap<int, std::string>>(c, "multimap<int,string>");
    case 28: return mk<std::unordered_set<std::string>>(c, "unordered_set<string>");
    case 29: return mk<Vector<3, double>>(c, "Vector<3>");
    case 30: return mk<std::vector<Vector<2, double>>>(c, "vector<Vector<2>>");
    case 31: return mk<Custom>(c, "Custom");
    case 32: return mk<std::vector<Custom>>(c, "vector<Custom>");
    case 33: return mk<std::vector<std::vector<std::vector<unsigned char>>>>(c, "vector^3<uchar>");
    case 34: return mk<std::map<std::string, std::map<int, std::set<int>>>>(c, "map<string,map<int,set>>");
    case 35: return P(new BoundListHolder(c));
    default: return P(new BoundHolder(c));
    }
}
/// The model: written values in order, and the position of the next read.
struct Model {
    std::vector<P> v;
    size_t pos = 0;
};
/// reads everything from the start and compares
inline void readAll(Ctx& c, BinarySerializer& s, Model& m, const char* when, const char* cls) {
    s.resetIterator();
    m.pos = 0;
    for (size_t i = 0; i < m.v.size(); i++) {
        if (!s.isIteratorValid()) c.violate(cls, "%s: the serializer ends after %zu of %zu values", when, i, m.v.size());
        if (!m.v[i]->read(c, s, i % 3)) c.violate(cls, "%s: value %zu of %zu (%s) was read wrongly", when, i, m.v.size(), m.v[i]->name());
    }
    m.pos = m.v.size();
    if (s.isIteratorValid()) c.violate(cls, "%s: the serializer holds more than the %zu values written", when, m.v.size());
}
} // namespace serial
#endif
