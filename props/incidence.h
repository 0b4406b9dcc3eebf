// Which elements of a mesh belong together, read from the elements without the functions under test.
#ifndef VERIF_INCIDENCE_H
#define VERIF_INCIDENCE_H
#include "cases.h"
#include <set>
namespace incidence {
typedef std::vector<std::set<size_t>> Rel;
template <unsigned D> struct SubFaces {
    template <typename MT> static void fill(const MT& m, Rel& r) {
        for (auto& f : m.getFaces()) { r.emplace_back(); const auto& s = f.getSubelements(); for (size_t i = 0; i < s.size(); i++) r.back().insert(s[i]); }
    }
};
template <> struct SubFaces<2> { template <typename MT> static void fill(const MT&, Rel&) {} };
template <unsigned D> struct Inc {
    size_t count[D + 1];
    Rel rel[D + 1][D + 1];   // rel[a][b][i]: elements of dimension b connected with element i of dimension a
    template <typename MT> explicit Inc(const MT& m) {
        count[0] = m.getVertices().size();
        count[1] = m.getEdges().size();
        count[D - 1] = m.getFaces().size();
        count[D] = m.getCells().size();
        for (auto& e : m.getEdges()) rel[1][0].push_back({(size_t)e.getVertexAIndex(), (size_t)e.getVertexBIndex()});
        SubFaces<D>::fill(m, rel[2][1]);
        rel[D][D - 1].assign(count[D], std::set<size_t>());
        for (size_t i = 0; i < count[D - 1]; i++) {
            const auto& f = m.getFaces()[i];
            for (size_t x : {(size_t)f.getCellLeftIndex(), (size_t)f.getCellRightIndex()}) if (x < count[D]) rel[D][D - 1][x].insert(i);
        }
        for (unsigned a = 0; a <= D; a++) { rel[a][a].clear(); for (size_t i = 0; i < count[a]; i++) rel[a][a].push_back({i}); }
        for (unsigned a = 2; a <= D; a++) for (int b = (int)a - 2; b >= 0; b--) {
            rel[a][b].assign(count[a], std::set<size_t>());
            for (size_t i = 0; i < count[a]; i++) for (size_t j : rel[a][b + 1][i]) rel[a][b][i].insert(rel[b + 1][b][j].begin(), rel[b + 1][b][j].end());
        }
        for (unsigned a = 0; a <= D; a++) for (unsigned b = a + 1; b <= D; b++) {
            rel[a][b].assign(count[a], std::set<size_t>());
            for (size_t i = 0; i < count[b]; i++) for (size_t j : rel[b][a][i]) rel[a][b][j].insert(i);
        }
    }
};
} // namespace incidence
#endif
