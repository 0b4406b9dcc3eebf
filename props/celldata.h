// Cell data exported with a mesh: structures, independent parser.
#ifndef VERIF_CELLDATA_H
#define VERIF_CELLDATA_H
#include "vtkout.h"
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h>

// flux and weight go to a second data array of the same container
struct Data3 { double pressure; Vector<3, double> velocity; int colour; Vector<9, double> stress; double extra; Vector<3, double> flux; float weight; };
MAKE_NAMED_ATTRIBUTE_TRAIT(Data3, "pressure", pressure, "velocity", velocity, "colour", colour, "stress", stress);
struct Data2 { double pressure; Vector<2, double> velocity; int colour; Vector<4, double> stress; double extra; Vector<2, double> flux; float weight; };
MAKE_NAMED_ATTRIBUTE_TRAIT(Data2, "velocity", velocity, "stress", stress, "colour", colour, "pressure", pressure);
template <unsigned D> struct More { float weight; Vector<D, double> flux; float other; };
typedef More<2> More2;
typedef More<3> More3;
MAKE_NAMED_ATTRIBUTE_TRAIT(More2, "weight", weight, "flux", flux);
MAKE_NAMED_ATTRIBUTE_TRAIT(More3, "flux", flux, "weight", weight);

namespace cases {
struct Column { std::string name, kind; size_t comps; std::vector<std::vector<double>> v; };

/// Strict parser of the CELL_DATA part.
inline std::string parseCellData(const std::string& text, std::vector<Column>& cols, size_t& n) {
    Tok t(text);
    if (t.word() != "CELL_DATA") return "no CELL_DATA";
    n = t.count();
    if (!t.ok) return "bad CELL_DATA";
    while (true) {
        std::string w;
        if (!(t.s >> w)) break;
        Column c;
        c.kind = w;
        c.name = t.word();
        std::string ty = t.word();
        if (!t.ok || (ty != "double" && ty != "float" && ty != "int")) return "bad header of the data " + c.name;
        if (w == "SCALARS") {
            // optional number of components, then the lookup table
            std::string a = t.word();
            if (a == "1") a = t.word();
            if (a != "LOOKUP_TABLE" || t.word() != "default") return "no LOOKUP_TABLE after the scalars " + c.name;
            c.comps = 1;
        } else if (w == "VECTORS") c.comps = 3;
        else if (w == "TENSORS") c.comps = 9;
        else return "unknown keyword " + sim::printable(w);
        for (size_t i = 0; i < n; i++) {
            std::vector<double> x;
            for (size_t j = 0; j < c.comps; j++) x.push_back(t.real());
            if (!t.ok) return "the data " + c.name + " have not " + std::to_string(n) + " values";
            c.v.push_back(x);
        }
        cols.push_back(c);
    }
    return "";
}
inline double dataValue(sim::Ctx& c, int digits) {
    double v = coord(c);
    if (c.chance(1, 8, "special value")) {
        static const double sp[] = {0.0, 1e-5, 123456, 1e12, -2.5e-7, 1};
        v = sp[c.pick(6, "value")];
    }
    if (digits > 6) v += static_cast<double>(c.pick(1000003, "fraction")) / 1000003.0;
    return v;
}
inline void fillData(sim::Ctx& c, Data3& d, int digits) {
    d.pressure = dataValue(c, digits);
    for (int j = 0; j < 3; j++) d.velocity[j] = dataValue(c, digits);
    d.colour = (int)c.pick(2001, "colour") - 1000;
    for (int j = 0; j < 9; j++) d.stress[j] = dataValue(c, digits);
    d.extra = dataValue(c, digits);
    d.weight = 0.25f * ((int)c.pick(4001, "weight") - 2000);
    for (int j = 0; j < 3; j++) d.flux[j] = 0.125 * d.weight + d.velocity[2 - j];
}
inline void fillData(sim::Ctx& c, Data2& d, int digits) {
    d.pressure = dataValue(c, digits);
    for (int j = 0; j < 2; j++) d.velocity[j] = dataValue(c, digits);
    for (int j = 0; j < 4; j++) d.stress[j] = dataValue(c, digits);
    d.colour = (int)c.pick(2001, "colour") - 1000;
    d.extra = dataValue(c, digits);
    d.weight = 0.25f * ((int)c.pick(4001, "weight") - 2000);
    for (int j = 0; j < 2; j++) d.flux[j] = 0.125 * d.weight + d.velocity[1 - j];
}
/// Ways to give the data: 0 default traits, 1 bound traits, 2 two arrays of one container (and one of
/// the nodes), 3 two arrays with bound traits, 4 the array alone
enum { waysOfData = 5 };
inline int wayOfData(sim::Ctx& c) {
    int w = c.chance(2, 5, "way to give the data") ? 1 + (int)c.pick(4, "way") : 0;
    if (w >= 2) c.probe(w == 4 ? "data array alone" : "several data arrays");
    return w;
}
typedef std::vector<std::pair<std::string, std::vector<double>>> Expected;
inline Expected second(Expected first, int which, double weight, std::vector<double> flux) {
    if (flux.size() == 2) flux.push_back(0);
    if (which == 2 || which == 3) {
        first.push_back({which == 2 ? "weight" : "mass", {weight}});
        first.push_back({which == 2 ? "flux" : "flow", flux});
    }
    return first;
}
/// name -> values of one cell as the exported columns
inline Expected expectOfFirst(const Data3& d, int which) {
    std::vector<double> s;
    for (int j = 0; j < 9; j++) s.push_back(d.stress[j]);
    if (which == 1 || which == 3) return {{"extra", {d.extra}}, {"speed", {d.velocity[0], d.velocity[1], d.velocity[2]}}};
    return {{"pressure", {d.pressure}}, {"velocity", {d.velocity[0], d.velocity[1], d.velocity[2]}}, {"colour", {(double)d.colour}}, {"stress", s}};
}
inline Expected expectOfFirst(const Data2& d, int which) {
    if (which == 1 || which == 3) return {{"extra", {d.extra}}, {"speed", {d.velocity[0], d.velocity[1], 0}}};
    return {{"velocity", {d.velocity[0], d.velocity[1], 0}}, {"stress", {d.stress[0], d.stress[1], 0, d.stress[2], d.stress[3], 0, 0, 0, 0}}, {"colour", {(double)d.colour}}, {"pressure", {d.pressure}}};
}
inline Expected expectOf(const Data3& d, int which) { return second(expectOfFirst(d, which), which, d.weight, {d.flux[0], d.flux[1], d.flux[2]}); }
inline Expected expectOf(const Data2& d, int which) { return second(expectOfFirst(d, which), which, d.weight, {d.flux[0], d.flux[1]}); }
inline const char* kindOf(size_t comps) { return comps == 1 ? "SCALARS" : comps == 3 ? "VECTORS" : "TENSORS"; }

template <unsigned D, typename T> using TwoArrays = MeshDataContainer<std::tuple<T, double, More<D>>, D, 0, D>;
template <unsigned D, typename T> TwoArrays<D, T> twoArrays(const MeshDataContainer<T, D>& data) {
    TwoArrays<D, T> r;
    auto& d = data.template getDataByPos<0>();
    r.template getDataByPos<0>().resize(d.size());
    r.template getDataByPos<1>().resize(d.size() + 1);
    r.template getDataByPos<2>().resize(d.size());
    for (size_t i = 0; i < d.size(); i++) {
        r.template getDataByPos<0>().at(i) = d.at(i);
        r.template getDataByPos<2>().at(i) = More<D>{d.at(i).weight, d.at(i).flux, 7.5f};
    }
    return r;
}
template <typename W, unsigned D, typename T> void writeData(std::ostream& os, W& w, MeshDataContainer<T, D>& data, int which) {
    auto tr = makeTraits<T>("extra", &T::extra, "speed", &T::velocity);
    auto tm = makeTraits<More<D>>("mass", &More<D>::weight, "flow", &More<D>::flux);
    if (which == 0) VTKMeshDataWriter<D>::writeToStream(os, data, w);
    if (which == 1) {
        auto b = bindTraits(data, tr);
        VTKMeshDataWriter<D>::writeToStream(os, b, w);
    }
    if (which == 2) {
        auto two = twoArrays(data);
        VTKMeshDataWriter<D>::writeToStream(os, two, w);
    }
    if (which == 3) {
        auto two = twoArrays(data);
        auto b = bindTraits(two, tr, tm);
        VTKMeshDataWriter<D>::writeToStream(os, b, w);
    }
    if (which == 4) VTKMeshDataWriter<D>::writeToStream(os, data.template getDataByPos<0>(), w);
}
template <unsigned D, typename T> void readAll(std::istream& is, MeshDataContainer<T, D>& data, int which) {
    auto tr = makeTraits<T>("extra", &T::extra, "speed", &T::velocity);
    auto tm = makeTraits<More<D>>("mass", &More<D>::weight, "flow", &More<D>::flux);
    auto& d = data.template getDataByPos<0>();
    if (which == 0) VTKMeshDataReader<D, size_t>::readFromStream(is, data);
    if (which == 1) {
        auto b = bindTraits(data, tr);
        VTKMeshDataReader<D, size_t>::readFromStream(is, b);
    }
    if (which == 2 || which == 3) {
        auto two = twoArrays(data);
        auto b = bindTraits(two, tr, tm);
        if (which == 2) VTKMeshDataReader<D, size_t>::readFromStream(is, two);
        else VTKMeshDataReader<D, size_t>::readFromStream(is, b);
        auto &a = two.template getDataByPos<0>();
        auto &m = two.template getDataByPos<2>();
        if (a.size() != m.size()) { d.clear(); return; }
        d.resize(a.size());
        for (size_t i = 0; i < a.size(); i++) {
            d.at(i) = a.at(i);
            d.at(i).weight = m.at(i).weight;
            d.at(i).flux = m.at(i).flux;
        }
    }
    if (which == 4) VTKMeshDataReader<D, size_t>::readFromStream(is, d);
}
/// Mesh + data written to a stream
template <unsigned D, typename MT, typename T> void writeAll(std::ostream& os, MT& mesh, const Types<D>& types, MeshDataContainer<T, D>& data, int which, const std::string& title) {
    typedef typename MT::Vertex V;
    typedef typename std::decay<decltype(std::declval<V>()[0])>::type Real;
    typedef typename std::decay<decltype(std::declval<V>().getIndex())>::type Index;
    VTKMeshWriter<D, Index, Real> w;
    w.writeHeader(os, title);
    w.writeToStream(os, mesh, types);
    writeData(os, w, data, which);
}
} // namespace cases
#endif
