// C16: regression: kNN regressor, least mean squares, mean squared error.
#include "dset.hpp"
#include "ufjfmltk/regressor/KNNRegressor.hpp"
#include "ufjfmltk/regressor/LMS.hpp"
#include "ufjfmltk/regressor/Metrics.hpp"
using namespace ds; using namespace vf;
using Man = mltk::metrics::dist::Manhattan<double>; using Euc = mltk::metrics::dist::Euclidean<double>;
template <bool man> static double rd(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += man ? std::abs(a[i] - b[i]) : (a[i] - b[i]) * (a[i] - b[i]); return man ? s : std::sqrt(s); }
// every mean the k nearest neighbours may give (ties at the k-th distance in any way)
template <bool man> static std::set<double> means(const std::vector<RP>& d, const std::vector<double>& q, size_t k) {
    std::vector<std::pair<double, double>> v; for (auto& p : d) v.push_back({rd<man>(p.x, q), p.y}); std::sort(v.begin(), v.end()); k = std::min(k, v.size()); double r = v[k - 1].first, base = 0; size_t nb = 0; std::vector<double> tied;
    for (auto& x : v) if (close(x.first, r, 1e-12)) tied.push_back(x.second); else if (x.first < r) { base += x.second; nb++; }
    std::vector<std::set<double>> s(k - nb + 1); s[0].insert(base); for (double t : tied) for (size_t j = k - nb; j >= 1; j--) for (double b : s[j - 1]) s[j].insert(b + t); std::set<double> out; for (double x : s[k - nb]) out.insert(x / k); return out;
}
template <bool man> static void knn(D& d, const std::vector<std::vector<double>>& qs, const std::vector<size_t>& ks, const std::string& key) {
    auto before = show(d); auto ref = pts(d); for (size_t k : ks) { mltk::regressor::KNNRegressor<double, std::conditional_t<man, Man, Euc>> r(d, k), l(k); expect(r.train(), key, "training failed"); l.setSamples(d); l.train(); nontrivial(before + std::to_string(k));
        std::vector<std::vector<double>> q = qs; for (auto& p : ref) q.push_back(p.x);
        for (auto& x : q) { auto ok = means<man>(ref, x, k); double a = r.evaluate(mk(x, 0)), b = l.evaluate(mk(x, 0)); bool ha = false, hb = false; for (double m : ok) { ha |= close(a, m); hb |= close(b, m); } count("predictions", 2); expectf(ha && hb, key, [&] { return "k=" + std::to_string(k) + " query " + str(x) + " gives " + num(a) + " and " + num(b) + ", possible " + str(ok) + " on " + show(d); }); } }
    expect(show(d) == before, key + "/data", "the dataset changed");
}
static double resid(const D& d, mltk::regressor::LMSPrimal<double>& l) { double m = 0; for (auto& p : pts(d)) m = std::max(m, std::abs(p.y - l.evaluate(mk(p.x, 0)))); return m; }
static void lms(const std::vector<std::vector<double>>& xs, const std::vector<double>& w, double b, const std::string& key) {
    std::vector<double> ys, zs; for (auto& x : xs) { double y = b; for (size_t i = 0; i < x.size(); i++) y += w[i] * x[i]; ys.push_back(y); zs.push_back(3 - y); }
    D d = make(xs, ys, "Regression"), e = make(xs, zs, "Regression"); auto before = show(d); mltk::regressor::LMSPrimal<double> l(d, 0.5, 0); l.setEPS(1e-14); l.setMaxTime(1e9); l.setMaxIterations(200000); nontrivial();
    for (int round = 0; round < 2; round++) { expect(l.train(), key + "/train", "training failed"); double r = resid(d, l); expectf(r < 1e-4, key + (round ? "/retrain" : "/fit"), [&] { return "residual " + num(r) + " on exactly linear data " + before + " w " + str(w) + " b " + num(b); });
        auto s = l.getSolution(); expect(s.w.size() == w.size(), key + "/w", "dimension of the solution"); for (auto& x : xs) { auto q = x; for (auto& v : q) v = v * 1.5 + 0.3; double f = s.bias; for (size_t i = 0; i < q.size(); i++) f += s.w[i] * q[i]; expect(close(l.evaluate(mk(q, 0)), f), key + "/evaluate", "evaluate differs from w.x+b"); } }
    l.setSamples(e); l.train(); expectf(resid(e, l) < 1e-4, key + "/other", [&] { return "residual " + num(resid(e, l)) + " after training on other data " + show(e); }); expect(show(d) == before, key + "/data", "the dataset changed"); count("trainings", 3);
    for (int m : {1, 2, 5}) { mltk::regressor::LMSPrimal<double> f(d, 0.5, 0); f.setEPS(-1); f.setMaxTime(1e9); f.setMaxIterations(m); f.train(); expect(f.getSteps() == m && f.getCtot() == m * (int)xs.size(), key + "/iterations", std::to_string(f.getSteps()) + " steps, " + std::to_string(f.getCtot()) + " updates for a limit of " + std::to_string(m)); }
}
void vf::run() {
    std::vector<std::vector<double>> grid; for (double x = -2; x <= 3; x += 1) for (double y = -2; y <= 3; y += 1) grid.push_back({x + 0.1, y - 0.2}); for (double x = 0; x <= 1; x += 0.5) for (double y = 0; y <= 1; y += 0.5) grid.push_back({x, y});
    static const double lay[4][7][2] = {{{0, 0}, {1, 0.3}, {2.7, 1.1}, {-1.4, 3.3}, {5.2, -2.6}, {0.9, 7.7}, {-4.1, -3.9}}, {{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 0}, {0, 2}, {2, 2}}, {{1, 1}, {1, 1}, {0, 1}, {-2, 1}, {0, 1}, {1, 1}, {3, 0}}, {{1.00000001, 0}, {-1, 0}, {0, 1.00000003}, {1000000.25, 0.01}, {1000000.25, 0.02}, {0, -1.00000002}, {0, 0.99999999}}};
    static const double vals[4] = {0, 1.5, -2.25, 10};
    for (int n = 1; n <= (thorough() ? 6 : 5); n++) for (int L = 0; L < 4; L++) product(n, n <= 4 ? 4 : 2, [&](const std::vector<int>& l) { kase("knn", "layout " + std::to_string(L) + " values " + str(l), [&] { std::vector<std::vector<double>> xs; std::vector<double> ys; for (int i = 0; i < n; i++) { xs.push_back({lay[L][i][0], lay[L][i][1]}); ys.push_back(vals[l[i]]); } D d = make(xs, ys, "Regression"); std::vector<size_t> ks; for (int k = 1; k <= n + 2; k++) ks.push_back(k); knn<false>(d, grid, ks, "knn"); knn<true>(d, grid, {2, 3}, "knn"); }); });
    for (int n = 6; n <= (thorough() ? 80 : 40); n++) for (int pat = 0; pat < 3; pat++) kase("knn", "size " + std::to_string(n) + " pattern " + std::to_string(pat), [&] { std::vector<std::vector<double>> xs; std::vector<double> ys; for (int i = 0; i < n; i++) { xs.push_back(pat == 0 ? std::vector<double>{std::fmod(i * 7.31, 11), std::fmod(i * i * 1.7, 7)} : pat == 1 ? std::vector<double>{double((i * 3) % 5), 1} : std::vector<double>{i * 0.5, -i * 0.25, std::sin(i)}); ys.push_back(pat == 1 ? i % 3 : std::fmod(i * 3.3, 10) - 5); } D d = make(xs, ys, "Regression"); if (n % 2) d.shuffle(n);
        knn<false>(d, {std::vector<double>(d.dim(), 1.5), std::vector<double>(d.dim(), -3)}, {1, 2, 3, 5, (size_t)n - 1, (size_t)n, (size_t)n + 4}, "knn"); });
    // least mean squares on exactly linear data
    for (int dim = 1; dim <= 3; dim++) { std::vector<std::vector<double>> cand; product(dim, 3, [&](const std::vector<int>& v) { std::vector<double> x; for (int c : v) x.push_back((c - 1) * 0.75); cand.push_back(x); }); std::vector<std::vector<double>> ws; product(dim, 3, [&](const std::vector<int>& v) { std::vector<double> x; for (int c : v) x.push_back(c == 0 ? 1.5 : c == 1 ? 0 : -0.7); ws.push_back(x); });
        int N = dim == 1 ? 3 : dim == 2 ? (thorough() ? 4 : 3) : 2; for (int n = 1; n <= N; n++) product(n, cand.size(), [&](const std::vector<int>& id) { for (size_t i = 0; i + 1 < id.size(); i++) if (id[i] == id[i + 1]) return; size_t h = 0; for (int i : id) h = h * 31 + i; if (!thorough() && dim == 3 && n == 2 && id[0] > id[1]) return;
            kase("lms", "dim " + std::to_string(dim) + " points " + str(id), [&] { std::vector<std::vector<double>> xs; for (int i : id) xs.push_back(cand[i]); for (size_t c = 0; c < ws.size(); c += (dim == 3 ? 5 : dim == 2 ? 2 : 1)) for (double b : {0.0, 2.0, -1.25}) lms(xs, ws[c], b, "lms"); }); }); }
    for (int n = 4; n <= (thorough() ? 80 : 40); n++) for (int dim = 1; dim <= 4; dim++) kase("lms", "size " + std::to_string(n) + " dim " + std::to_string(dim), [&] { std::vector<std::vector<double>> xs; std::vector<double> w; for (int i = 0; i < n; i++) { std::vector<double> x; for (int j = 0; j < dim; j++) x.push_back(0.6 * std::sin(i * (j + 1) * 1.7 + j)); xs.push_back(x); } for (int j = 0; j < dim; j++) w.push_back(j - 1.2); lms(xs, w, 0.8, "lms"); });
    // mean squared error
    for (int n = 1; n <= 4; n++) product(2 * n, n == 4 ? 3 : 4, [&](const std::vector<int>& l) { if (l[0] == 0 || n < 3) {} kase("mse", "mse " + str(l), [&] { mltk::Point<double> a(n), b(n); double s = 0; for (int i = 0; i < n; i++) { a[i] = vals[l[i]]; b[i] = vals[l[n + i]]; s += (a[i] - b[i]) * (a[i] - b[i]); } expectf(close(mltk::metrics::MSE(a, b), s / n), "mse", [&] { return num(mltk::metrics::MSE(a, b)) + " expected " + num(s / n); }); }); });
}
