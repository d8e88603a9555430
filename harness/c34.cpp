// C34: diverse subspaces have the number of features asked for, all different, chosen by the score they are defined by.
#include "dset.hpp"
#include "ufjfmltk/core/Sampling.hpp"
using namespace ds; using namespace vf; using V = std::vector<double>; using VV = std::vector<V>; using SS = std::vector<std::vector<size_t>>;
static double pearson(const V& a, const V& b) { double ma = 0, mb = 0, n = a.size(); for (double x : a) ma += x / n; for (double x : b) mb += x / n; double s = 0, va = 0, vb = 0; for (size_t i = 0; i < a.size(); i++) { s += (a[i] - ma) * (b[i] - mb); va += (a[i] - ma) * (a[i] - ma); vb += (b[i] - mb) * (b[i] - mb); } return va < 1e-12 || vb < 1e-12 ? 0 : s / std::sqrt(va * vb); }
static void check(const D& d, int k, int n, double alpha, const std::string& key) {
    D src(d.copy()); auto before = show(src); size_t m = d.size(), dim = d.dim(); mltk::DSM<double> dsm(src, k, n, alpha); V y; VV f(dim); for (auto& p : pts(d)) { y.push_back(p.y); for (size_t j = 0; j < dim; j++) f[j].push_back(p.x[j]); }
    for (int round = 0; round < 2; round++) { SS s = dsm(src); transition(); auto rk = key + (round ? "/again" : ""); auto ctx = [&] { std::string t; for (auto& x : s) t += str(x); return t + " of " + std::to_string(dim) + " features, k " + std::to_string(k) + " n " + std::to_string(n) + " alpha " + num(alpha) + " for " + before; };
        expectf((int)s.size() == k, rk + "/number", ctx); bool ok = true; for (auto& x : s) { std::set<size_t> u(x.begin(), x.end()); ok &= (int)x.size() == n && (int)u.size() == n && *u.rbegin() < dim; } expectf(ok, rk + "/distinct", ctx); if (!ok || (int)s.size() != k) return;
        // features are chosen round by round, the best one each time (the quality is the correlation with the labels up to the factor of the sample covariance)
        auto greedy = [&](double fac) { std::vector<std::set<size_t>> have(k); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) { double best = -1e300, got = 0; for (size_t c = 0; c < dim; c++) { if (have[j].count(c)) continue; double cnt = 0; for (auto& h : have) cnt += h.count(c); double v = alpha * fac * pearson(f[c], y) + (1 - alpha) * (1 - cnt / k) / 2; best = std::max(best, v); if (c == s[j][i]) got = v; } if (got < best - 1e-9) return false; have[j].insert(s[j][i]); } return true; };
        expectf(greedy(m / (m - 1.0)) || greedy(1), rk + "/greedy", [&] { return "a feature which is not the best one is chosen: " + ctx(); });
        for (int i = 0; i < k; i++) { double mx = 0; for (int j = 0; j < k; j++) if (i != j) { size_t c = 0; for (auto x : s[i]) c += std::count(s[j].begin(), s[j].end(), x); mx = std::max(mx, double(c) / n); } double g = dsm.div_ms(i); expectf(close(g, 1 - mx), rk + "/diversity", [&] { return "diversity of subspace " + std::to_string(i) + " is " + num(g) + " instead of " + num(1 - mx) + ": " + ctx(); }); }
        for (size_t c = 0; c < dim; c++) { double cnt = 0; for (auto& x : s) cnt += std::count(x.begin(), x.end(), c); double g = dsm.div_mx(c); expectf(close(g, 1 - cnt / k), rk + "/use", [&] { return "diversity of feature " + std::to_string(c) + " is " + num(g) + " instead of " + num(1 - cnt / k) + ": " + ctx(); }); double q = dsm.qual_correlation(src, c), p = pearson(f[c], y); expectf(close(q, p, 1e-7) || close(q, p * m / (m - 1.0), 1e-7), rk + "/quality", [&] { return "quality of feature " + std::to_string(c) + " is " + num(q) + ", the correlation " + num(p) + ": " + ctx(); }); }
        std::string t; for (auto& x : s) t += str(x); state(before + t + num(alpha)); }
    expectf(show(src) == before, key + "/data", [&] { return "the dataset is changed to " + show(src); });
}
void vf::run() {
    auto every = [&](const VV& xs, const V& ys, const std::string& desc) { kase("dsm", desc, [&] { nontrivial(); D d = make(xs, ys); int dim = d.dim(); for (int k = 1; k <= (thorough() ? 4 : 3); k++) for (int n = 1; n <= dim; n++) for (double a : {0.0, 0.3, 0.5, 0.8, 1.0}) check(d, k, n, a, "dsm"); }); };
    // all binary features of few points, every labelling
    for (int m = 2; m <= 4; m++) for (int dim = 1; dim <= (m == 4 ? 3 : 4); dim++) multisets(dim, 1 << m, [&](const std::vector<int>& c) { static int t = 0; for (int l = 1; l < 1 << m; l += 2) { if (t++ % (m == 4 && !thorough() ? 13 : thorough() ? 1 : 3)) continue; VV xs; V ys; for (int i = 0; i < m; i++) { V x; for (int j : c) x.push_back(j >> i & 1); if (l % 3 == 0) std::reverse(x.begin(), x.end()); xs.push_back(x); ys.push_back(l >> i & 1 ? 1 : -1); } every(xs, ys, "features " + str(c) + " of " + std::to_string(m) + " points labels " + std::to_string(l)); } });
    for (int m = 3; m <= (thorough() ? 30 : 15); m += 3) for (int dim = 2; dim <= (thorough() ? 10 : 7); dim++) { VV xs; V ys; for (int i = 0; i < m; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(j == 1 ? 3 : 2 * std::sin(i * (j + 1) * 1.7 + j * j) + (i % 3) * (j - 2)); xs.push_back(x); ys.push_back(i % 3); } every(xs, ys, "size " + std::to_string(m) + " dim " + std::to_string(dim)); }
}
