// C28: statistics of points and datasets are what they are defined to be.
#include "dset.hpp"
#include "ufjfmltk/core/Statistics.hpp"
using namespace ds; using namespace vf; using V = std::vector<double>; using VV = std::vector<V>; namespace st = mltk::stats;
static double avg(const V& v) { double s = 0; for (double x : v) s += x; return s / v.size(); }
static double ss(const V& v) { double m = avg(v), s = 0; for (double x : v) s += (x - m) * (x - m); return s; }
static void eq(double got, double e, const char* key, std::function<std::string()> c) { count("values"); expectf(std::fabs(got - e) <= 1e-9 * (1 + std::fabs(e)), key, [&] { return std::string(key) + " is " + num(got) + ", defined to be " + num(e) + " for " + c(); }); }
static void points(const V& a, const V& b) { P p(a), q(b); auto c = [&] { return str(a) + " " + str(b); }; size_t n = a.size(); transition(); eq(st::mean(p), avg(a), "mean", c); eq(st::var(p), ss(a) / n, "variance", c); eq(st::std_dev(p), std::sqrt(ss(a) / n), "deviation", c); if (n > 1) { double s = 0; for (size_t i = 0; i < n; i++) s += (a[i] - avg(a)) * (b[i] - avg(b)); eq(st::covar(p, q), s / (n - 1), "covariance", c); eq(st::covar(q, p), s / (n - 1), "covariance", c); } eq(st::mean(p + q), avg(a) + avg(b), "mean of an expression", c); expect(rp(p).x == a && rp(q).x == b, "operands", "a point changed"); }
static void data(const D& d) {
    auto p = pts(d); size_t n = p.size(), dim = d.dim(); auto c = [&] { return show(d); }; auto fn = d.getFeaturesNames(); auto before = show(d); VV col(dim); for (auto& x : p) for (size_t j = 0; j < dim; j++) col[j].push_back(x.x[j]); transition(); state(before); double tot = 0; for (auto& v : col) tot += ss(v) / n;
    for (size_t j = 0; j < dim; j++) { eq(st::mean(d, j), avg(col[j]), "mean of a feature", c); eq(st::std_dev(d, j), n > 1 ? std::sqrt(ss(col[j]) / (n - 1)) : 0, "deviation of a feature", c); eq(st::var(d, j), ss(col[j]) / n, "variance of a feature", c); } eq(st::var(d, -1), tot, "total variance", c);
    std::vector<int> feats = fn; feats.push_back(-1); feats.push_back(fn.back() + 7); for (int f : feats) { double r2 = 0, r1 = 0; V pos(dim), neg(dim); double np = 0, nn = 0; for (auto& x : p) { double s = 0; for (size_t j = 0; j < dim; j++) if (fn[j] != f) { s += (x.x[j] - avg(col[j])) * (x.x[j] - avg(col[j])); r1 = std::max(r1, std::fabs(x.x[j])); } r2 = std::max(r2, std::sqrt(s)); for (size_t j = 0; j < dim; j++) (x.y == 1 ? pos : neg)[j] += x.x[j]; (x.y == 1 ? np : nn)++; }
        eq(st::radius(d, f, 2), r2, "radius", c); eq(st::radius(d, f, 1), r1, "largest coordinate", c); if (!np || !nn) continue; auto dist = [&](const std::vector<int>& out) { double s = 0; for (size_t j = 0; j < dim; j++) if (fn[j] != f && std::find(out.begin(), out.end(), fn[j]) == out.end()) s += std::pow(pos[j] / np - neg[j] / nn, 2); return std::sqrt(s); }; eq(st::distCenters(d, f), dist({}), "distance of the centers", c);
        if (dim <= 5) product(dim, 2, [&](const std::vector<int>& m) { std::vector<int> out; for (size_t j = 0; j < dim; j++) if (m[j]) out.push_back(fn[dim - 1 - j]); eq(st::distCentersWithoutFeats(d, out, f), dist(out), "distance of the centers without features", [&] { return str(out) + " " + std::to_string(f) + " " + c(); }); }); }
    expect(show(d) == before, "data", "the dataset changed");
}
void vf::run() {
    V g = {-2, 0, 0.5, 3}; auto name = [](D d, int w) { std::vector<int> f; for (size_t j = 0; j < d.dim(); j++) f.push_back(w == 0 ? j + 1 : w == 1 ? 10 - 2 * j : (j * 5) % 7 + 3); if (w) d.setFeaturesNames(f); return d; };
    for (int n = 1; n <= 3; n++) product(n, 4, [&](const std::vector<int>& x) { kase("points", "point " + str(x), [&] { nontrivial(); product(n, 4, [&](const std::vector<int>& y) { V a, b; for (int i = 0; i < n; i++) { a.push_back(g[x[i]]); b.push_back(g[y[i]] * 1.5 - 1); } points(a, b); }); }); });
    for (int n = 4; n <= 60; n++) kase("points", "point of size " + std::to_string(n), [&] { nontrivial(); for (int o = 0; o < 4; o++) { V a, b; for (int i = 0; i < n; i++) { a.push_back(std::sin(i * 1.3 + o) * 3 + o * 50); b.push_back(std::cos(i * 2.1) * 5 - o); } points(a, b); } });
    for (int dim = 1; dim <= 3; dim++) for (int n = 1; n <= (thorough() ? 4 : 3); n++) { if (dim * n > 9) continue; int t = std::min(dim * n, thorough() ? 7 : 6); product(t, dim * n > 5 ? 3 : 4, [&](const std::vector<int>& v) { kase("data", "dimension " + std::to_string(dim) + " values " + str(v) + " size " + std::to_string(n), [&] { nontrivial(); for (int l = 0; l < (1 << n); l++) { VV xs; V ys; for (int i = 0; i < n; i++) { V x; for (int j = 0; j < dim; j++) { int k = i * dim + j; x.push_back(k < t ? g[v[k]] : k - 6.5); } xs.push_back(x); ys.push_back(l >> i & 1 ? 1 : l % 3 ? -1 : 2); } data(name(make(xs, ys), (l + v[0]) % 3)); } }); }); }
    for (int n = 4; n <= (thorough() ? 100 : 40); n++) for (int dim = 1; dim <= 6; dim += 2 - (thorough() ? 1 : 0)) kase("data", "size " + std::to_string(n) + " dimension " + std::to_string(dim), [&] { nontrivial(); VV xs; V ys; for (int i = 0; i < n; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(std::sin(i * 1.7 + j * j) * (j + 1) + j * 3); xs.push_back(x); ys.push_back(i % 3 ? 1 : -1); } data(name(make(xs, ys), n % 3)); });
    for (int dim : {7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 130}) for (int n : {2, 5, 17}) kase("data", "size " + std::to_string(n) + " dimension " + std::to_string(dim), [&] { nontrivial(); VV xs; V ys; for (int i = 0; i < n; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(std::sin(i * 1.7 + j * j) * (j + 1) + j * 3); xs.push_back(x); ys.push_back(i % 3 ? 1 : -1); } D d = make(xs, ys); if (n != 5) { std::vector<int> f; for (int j = 0; j < dim; j++) f.push_back(n == 2 ? 2 * j + 3 : 2 * dim - j); d.setFeaturesNames(f); } data(d); });
}
