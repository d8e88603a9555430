// C04: the parallel distance matrix equals the sequential pairwise distances, for every thread count, order of ids and schedule.
#include "mc_main.hpp"
#include "ufjfmltk/core/Data.hpp"
#include "ufjfmltk/core/DistanceMatrix.hpp"
#include <numeric>
namespace D = mltk::metrics::dist;
// reference: plain loops
template <class M> static double ref(const std::vector<double>& a, const std::vector<double>& b);
template <> double ref<D::Euclidean<double>>(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
template <> double ref<D::Manhattan<double>>(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += std::fabs(a[i] - b[i]); return s; }
template <> double ref<D::Chebyshev<double>>(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s = std::max(s, std::fabs(a[i] - b[i])); return s; }

template <class M> static void matrix(const std::vector<int>& ids, unsigned threads, bool diag, int dim) {
    size_t n = ids.size(); mltk::Data<double> d; std::vector<std::vector<double>> x(n + 1);
    for (int id : ids) { std::vector<double> v(dim); for (int k = 0; k < dim; k++) v[k] = (id * id * (k + 1)) % 11 + 0.5 * id; x[id] = v; auto p = std::make_shared<mltk::Point<double>>(v); p->Id() = id; p->Y() = id % 2 ? 1 : -1; d.insertPoint(p, true); }
    D::DistanceMatrix<M> m(d, diag, threads);
    mc::check(m.size() == n, "matrix has " + std::to_string(m.size()) + " rows for " + std::to_string(n) + " points"); mc::check(m.isDiagonalMatrix() == diag, "triangular flag");
    for (size_t a = 1; a <= n; a++) { auto& row = m[a - 1]; mc::check(row.size() == (diag ? a : n), "row of id " + std::to_string(a) + " has " + std::to_string(row.size()) + " entries");
        for (size_t b = 1; b <= (diag ? a : n); b++) { double w = a == b ? 0 : ref<M>(x[a], x[b]); mc::check(std::fabs(row[b - 1] - w) < 1e-9, "entry (" + std::to_string(a) + "," + std::to_string(b) + ") is " + std::to_string(row[b - 1]) + ", distance is " + std::to_string(w)); } }
    for (size_t i = 0; i < n; i++) { mc::check(d[i]->Id() == (size_t)ids[i], "the dataset was modified"); for (int k = 0; k < dim; k++) mc::check((*d[i])[k] == x[ids[i]][k], "the dataset was modified"); }
}
template <class M> static void add(int q, int t, const char* nm, std::vector<int> ids, unsigned th, bool diag, int dim) {
    std::string s; for (int i : ids) s += (s.empty() ? "" : ",") + std::to_string(i); if (s.size() > 40) s = std::to_string(ids.size()) + "ids:" + s.substr(0, 12) + "..";
    scenario(std::string("matrix/") + nm + "/t" + std::to_string(th) + (diag ? "/tri" : "/full") + "/d" + std::to_string(dim) + "/" + s, q, t, [=] { matrix<M>(ids, th, diag, dim); });
}
void register_scenarios() {
    for (int n = 1; n <= 4; n++) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 1);
        do { for (unsigned th = 1; th <= 3; th++) for (bool diag : {false, true}) { add<D::Euclidean<double>>(n <= 3 ? 1 : 0, n <= 3 ? 2 : 1, "euc", p, th, diag, 2); } 
             for (bool diag : {false, true}) add<D::Euclidean<double>>(n <= 3 ? 2 : 1, n <= 3 ? 3 : 2, "euc", p, 2, diag, 1);
        } while (std::next_permutation(p.begin(), p.end())); }
    for (int n = 5; n <= 24; n++) for (int step : {1, 5, 7}) { std::vector<int> p; for (int i = 0; i < n; i++) p.push_back((i * step) % n + 1); std::vector<int> q = p; std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); if ((int)q.size() != n) continue;
        for (unsigned th : {1u, 2u, 3u, 5u, 8u}) for (bool diag : {false, true}) add<D::Euclidean<double>>(0, 0, "euc", p, th, diag, 3); }
    for (int n : {25, 31, 32, 33, 64, 65, 128, 129, 256, 257, 300}) { std::vector<int> p; for (int i = 0; i < n; i++) p.push_back((i * 11 + 4) % n + 1); std::vector<int> q = p; std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); if ((int)q.size() != n) std::iota(p.begin(), p.end(), 1);
        for (bool diag : {false, true}) add<D::Euclidean<double>>(0, 0, "euc", p, 2, diag, 1); }
    for (bool diag : {false, true}) { add<D::Manhattan<double>>(2, 2, "man", {2, 1, 3}, 2, diag, 2); add<D::Chebyshev<double>>(2, 2, "che", {3, 1, 2}, 2, diag, 2); }
}
