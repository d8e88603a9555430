// C15: kNN classification equals its definition, with and without precomputed distances.
#include "dset.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
using namespace ds; using namespace vf;
struct Man { double operator()(const P& a, const P& b) const { double s = 0; for (size_t i = 0; i < a.size(); i++) s += std::abs(a[i] - b[i]); return s; } };
using Euc = mltk::metrics::dist::Euclidean<double>; using LMan = mltk::metrics::dist::Manhattan<double>;
template <bool man> static double rd(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += man ? std::abs(a[i] - b[i]) : (a[i] - b[i]) * (a[i] - b[i]); return man ? s : std::sqrt(s); }
// The classes kNN may answer for q: ties at the k-th distance may be broken in any way, equal votes go to the first class. Also the frequencies.
template <bool man> static std::set<std::pair<int, int>> allowed(const D& d, const std::vector<double>& q, size_t k) {
    auto cl = d.classes(); std::vector<std::pair<double, int>> v; for (auto& p : pts(d)) v.push_back({rd<man>(p.x, q), (int)p.y}); std::sort(v.begin(), v.end()); k = std::min(k, v.size());
    double r = v[k - 1].first; std::map<int, int> base, tied; size_t nb = 0; for (auto& x : v) if (x.first < r && !close(x.first, r, 1e-12)) { base[x.second]++; nb++; } else if (close(x.first, r, 1e-12)) tied[x.second]++;
    std::set<std::pair<int, int>> out; std::vector<std::pair<int, int>> t(tied.begin(), tied.end()); std::map<int, int> cur = base;
    std::function<void(size_t, size_t)> go = [&](size_t i, size_t left) { if (i == t.size()) { if (left) return; int best = cl[0], f = 0; for (int c : cl) if (cur[c] > f) { f = cur[c]; best = c; } out.insert({best, f}); return; }
        for (int m = 0; m <= t[i].second && m <= (int)left; m++) { cur[t[i].first] += m; go(i + 1, left - m); cur[t[i].first] -= m; } };
    go(0, k - nb); return out;
}
template <bool man> static void check(mltk::classifier::KNNClassifier<double, std::conditional_t<man, LMan, Euc>>& knn, const D& d, const P& q, size_t k, const std::string& key) {
    auto ok = allowed<man>(d, rp(q).x, k); double got = knn.evaluate(q); count("predictions"); double prob = knn.getPredictionProbability();
    bool hit = false, ph = false; size_t nc = d.classes().size(); std::string s; for (auto& o : ok) { s += std::to_string(o.first) + " "; if (o.first == got) { hit = true; double p = (o.second + 0.0001) / (k + nc * 0.0001); if (close(p, prob, 1e-6)) ph = true; } }
    expectf(hit, key, [&] { return "k=" + std::to_string(k) + " query " + str(rp(q).x) + " gives " + num(got) + ", possible: " + s + " on " + show(d); });
    if (hit && k <= d.size()) expectf(ph, key + "/probability", [&] { return "probability " + num(prob) + " for k=" + std::to_string(k) + " query " + str(rp(q).x) + " on " + show(d); });
}
template <bool man> static void all(D& d, const std::vector<std::vector<double>>& qs, std::vector<size_t> ks, const std::string& key) {
    using K = mltk::classifier::KNNClassifier<double, std::conditional_t<man, LMan, Euc>>; auto before = show(d); std::set<int> ids; for (auto& p : pts(d)) ids.insert(p.id); bool perm = ids.size() == d.size() && *ids.begin() == 1 && *ids.rbegin() == (int)d.size();
    for (size_t k : ks) { nontrivial(before + "k" + std::to_string(k) + (man ? "m" : "e"));
        K knn(d, k); expect(knn.train(), key + "/train", "training failed"); for (auto& x : qs) check<man>(knn, d, mk(x, 0), k, key + "/brute"); for (size_t i = 0; i < d.size(); i++) check<man>(knn, d, *d.point(i), k, key + "/brute");
        K late(k); late.setSamples(d); late.train(); if (!qs.empty()) check<man>(late, d, mk(qs[0], 0), k, key + "/setSamples");
        if (perm) for (int diag = 0; diag < 2; diag++) { K a(d, k), b(d, k); auto mat = a.precomputeDistances(d, diag, 1 + d.size() % 3); b.setPrecomputedDistances(mltk::metrics::dist::DistanceMatrix<std::conditional_t<man, LMan, Euc>>(d, diag, 2));
            for (size_t i = 0; i < d.size(); i++) { check<man>(a, d, *d.point(i), k, key + (diag ? "/triangular" : "/precomputed")); check<man>(b, d, *d.point(i), k, key + (diag ? "/triangular" : "/precomputed")); } } }
    expect(show(d) == before, key + "/data", "the dataset changed");
}
void vf::run() {
    static const double lay[4][7][2] = {{{0, 0}, {1, 0.3}, {2.7, 1.1}, {-1.4, 3.3}, {5.2, -2.6}, {0.9, 7.7}, {-4.1, -3.9}}, {{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 0}, {0, 2}, {2, 2}}, {{1, 1}, {1, 1}, {0, 1}, {-2, 1}, {0, 1}, {1, 1}, {3, 0}}, {{1.00000001, 0}, {-1, 0}, {0, 1.00000003}, {1000000.25, 0.01}, {1000000.25, 0.02}, {0, -1.00000002}, {0, 0.99999999}}};
    std::vector<std::vector<double>> grid; for (double x = -2; x <= 3; x += 1) for (double y = -2; y <= 3; y += 1) grid.push_back({x + 0.1, y - 0.2}); for (double x = 0; x <= 1; x += 0.5) for (double y = 0; y <= 1; y += 0.5) grid.push_back({x, y});
    int N = thorough() ? 6 : 5;
    for (int n = 1; n <= N; n++) for (int L = 0; L < 4; L++) product(n, n == 5 ? 2 : 3, [&](const std::vector<int>& l) { kase("knn", "layout " + std::to_string(L) + " labels " + str(l), [&] {
        std::vector<std::vector<double>> xs; std::vector<double> ys; for (int i = 0; i < n; i++) { xs.push_back({lay[L][i][0], lay[L][i][1]}); ys.push_back(L == 0 ? 1 - 2 * l[i] : 5 - 2 * l[i]); } D d = make(xs, ys); if (l[0] == l[n - 1]) d.shuffle(n + L);
        std::vector<size_t> ks; for (int k = 1; k <= n + 1; k++) ks.push_back(k); all<false>(d, grid, ks, "knn"); all<true>(d, grid, {1, 3}, "manhattan"); }); });
    for (int n = 6; n <= (thorough() ? 80 : 40); n++) for (int pat = 0; pat < 6; pat++) kase("knn", "size " + std::to_string(n) + " pattern " + std::to_string(pat), [&] { D d = patterned(n, pat, 2); for (int i = 0; i < n; i++) { (*d.point(i))[0] = (i * 7) % 11; (*d.point(i))[1] = (i * i) % 7; } d.shuffle(n);
        all<false>(d, {{3, 3}, {5.5, 2.5}, {-1, 8}}, {1, 2, 3, 5, 7, (size_t)n - 1, (size_t)n, (size_t)n + 3}, "knn"); if (n % 3 == 0) all<true>(d, {{3, 3}, {5.5, 2.5}}, {3, 6}, "manhattan"); });
}
