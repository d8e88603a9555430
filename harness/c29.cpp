// C29: generated datasets have the shape, classes and structure asked for.
#include "dset.hpp"
#include "ufjfmltk/core/Datasets.hpp"
using namespace ds; using namespace vf; using V = std::vector<double>; using VV = std::vector<V>; namespace g = mltk::datasets;
static void common(const D& d, size_t n, size_t dim, const std::string& type, const std::string& name, const std::string& key) {
    auto c = [&] { return std::to_string(d.size()) + " points, dim " + std::to_string(d.dim()) + ", type " + d.getType() + ", name " + d.name(); }; count("datasets"); transition(); invariants(d, key, type == "Classification");
    expectf(d.size() == n && (!n || d.dim() == dim), key + "/shape", [&] { return c() + " instead of " + std::to_string(n) + " points of dim " + std::to_string(dim); }); expect(d.getType() == type && d.name() == name, key + "/kind", c()); bool ids = true; for (size_t i = 0; i < d.size(); i++) ids &= d.point(i)->Id() == i + 1 && d.getIndex()[i] == (int)i && d.point(i)->Alpha() == 0; expect(ids, key + "/ids", "the ids or the index are not in order"); std::vector<int> f; for (size_t j = 0; j < d.dim(); j++) f.push_back(j + 1); if (d.size()) expect(d.getFeaturesNames() == f, key + "/fnames", str(d.getFeaturesNames()));
}
static std::vector<RP> noid(const D& d) { auto v = pts(d); for (auto& p : v) p.id = 0; return v; }
static void shuffled(const D& a, const D& b, const std::string& key) { auto x = noid(a), y = noid(b); bool moved = !(x == y); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); expect(x == y, key + "/shuffle", "shuffling changes the points"); if (a.size() >= 8) expect(moved, key + "/shuffle", "the points are not shuffled"); }
static double lab(int i, int nc) { return nc == 2 ? (i == 0 ? -1 : 1) : i + 1; }
static void spirals(size_t n, int nc, size_t loops, double margin, size_t seed) {
    size_t m = n / nc; auto d = g::make_spirals(n, nc, false, 0, loops, margin, seed); common(d, m * nc, 2, "Classification", "spirals", "spirals"); nontrivial(); if (d.size() != m * nc) return; VV th(nc);
    for (size_t k = 0; k < d.size(); k++) { int i = k / m; auto p = rp(*d.point(k)); double r = std::hypot(p.x[0], p.x[1]), t = r / (margin * nc); th[i].push_back(t); double a = t + i * 2.0 * M_PI / nc; expectf(std::fabs(p.x[0] - r * std::cos(a)) < 1e-6 * (1 + r) && std::fabs(p.x[1] - r * std::sin(a)) < 1e-6 * (1 + r) && t >= 0 && t <= loops * 2 * M_PI * (1 + 1e-9), "spirals/curve", [&] { return show({p}) + " is not on spiral " + std::to_string(i); }); expect(p.y == lab(i, nc), "spirals/label", show({p}) + " of spiral " + std::to_string(i)); }
    if (seed) { double noise = 0.7; auto e = g::make_spirals(n, nc, false, noise, loops, margin, seed); common(e, m * nc, 2, "Classification", "spirals", "spirals"); bool some = m == 0; for (size_t k = 0; k < e.size(); k++) for (int j = 0; j < 2; j++) { double o = (*e.point(k))[j] - (*d.point(k))[j]; some |= o > 1e-9; expectf(o > -1e-9 && o < noise, "spirals/noise", [&] { return "a point is moved by " + num(o); }); } expect(some, "spirals/noise", "no noise"); shuffled(d, g::make_spirals(n, nc, true, 0, loops, margin, seed), "spirals"); }
    if (m >= 20 && loops) { double mx = 0, mn = 1e300; for (double t : th[0]) { mx = std::max(mx, t); mn = std::min(mn, t); } expect(mx > loops * M_PI && mn < loops * M_PI, "spirals/spread", "the points do not spread over the loops"); }
}
static void blob(const D& d, const VV& centers, const V& stds, const std::vector<size_t>& per, int dim, bool cls, bool shuf, const std::string& key) { // per: points of each consecutive block and center
    size_t tot = 0; for (size_t p : per) tot += p * centers.size(); common(d, tot, dim, cls ? "Classification" : "Clustering", "blobs", key); if (d.size() != tot) return; std::map<double, size_t> cnt; size_t k = 0; V seen(centers.size());
    if (!shuf) for (size_t p : per) for (size_t c = 0; c < centers.size(); c++) for (size_t i = 0; i < p; i++, k++) { auto q = rp(*d.point(k)); bool ok = true; for (int j = 0; j < dim; j++) { ok &= std::fabs(q.x[j] - centers[c][j]) <= 7 * stds[c] + 1e-12; seen[c] = std::max(seen[c], std::fabs(q.x[j] - centers[c][j])); } expectf(ok, key + "/center", [&] { return show({q}) + " is not around center " + str(centers[c]) + " with deviation " + num(stds[c]); }); if (cls) expect(q.y == lab(c, centers.size()), key + "/label", show({q}) + " of center " + std::to_string(c)); }
    if (cls) { for (auto& p : pts(d)) cnt[p.y]++; for (size_t c = 0; c < centers.size(); c++) expect(cnt[lab(c, centers.size())] * centers.size() == tot, key + "/balance", "a class has " + std::to_string(cnt[lab(c, centers.size())]) + " of " + std::to_string(tot) + " points"); }
    if (!shuf) for (size_t c = 0; c < centers.size(); c++) if (tot * dim / centers.size() >= 20) expect(seen[c] >= 0.5 * stds[c], key + "/spread", "center " + std::to_string(c) + " has points up to " + num(seen[c]) + " only");
}
static void blobs(size_t n, int nc, int dim, double std_, size_t seed) {
    nontrivial(); for (int cls = 0; cls < 2; cls++) for (double lo : {-10.0, 2.0}) { double hi = lo < 0 ? 10 : 3; auto b = g::make_blobs(n, nc, dim, std_, lo, hi, false, cls, seed); VV c; for (auto& p : b.centers) c.push_back(rp(p).x); bool ok = (int)c.size() == nc; for (auto& x : c) { ok &= (int)x.size() == dim; for (double v : x) ok &= v >= lo && v <= hi; } if (!expect(ok, "blobs/centers", "the centers are not as asked for")) continue; blob(b.dataset, c, V(nc, std_), std::vector<size_t>(nc, n / nc), dim, cls, false, "blobs");
        auto s = g::make_blobs(n, nc, dim, std_, lo, hi, true, cls, seed); VV sc; for (auto& p : s.centers) sc.push_back(rp(p).x); blob(s.dataset, sc, V(nc, std_), std::vector<size_t>(nc, n / nc), dim, cls, true, "blobs"); if (seed) { expect(sc == c, "blobs/centers", "shuffling changes the centers"); if (std_ > 0) shuffled(b.dataset, s.dataset, "blobs"); } }
}
static void given(const std::vector<size_t>& per, int dim, size_t seed) {
    nontrivial(); int nc = per.size(); VV c; V sd; std::vector<mltk::Point<double>> cp; for (int i = 0; i < nc; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(i * 20 - j * 7.5); c.push_back(x); cp.push_back(P(x)); sd.push_back(i * 0.5 + 1e-3); } for (int cls = 0; cls < 2; cls++) { auto b = g::make_blobs(per, cp, sd, dim, false, cls, seed); bool ok = b.centers.size() == c.size(); for (size_t i = 0; ok && i < c.size(); i++) ok = rp(b.centers[i]).x == c[i]; expect(ok, "given/centers", "other centers"); blob(b.dataset, c, sd, per, dim, cls, false, "given"); auto s = g::make_blobs(per, cp, sd, dim, true, cls, seed); blob(s.dataset, c, sd, per, dim, cls, true, "given"); if (seed && b.dataset.size() > 12) shuffled(b.dataset, s.dataset, "given"); }
}
static void regression(size_t n, size_t dim, double bias, size_t inf, size_t seed) {
    nontrivial(); for (double noise : {-1.0, 0.0, 0.3}) for (double mean : {0.0, 5.0}) { auto r = g::make_regression(n, dim, bias, noise, mean, inf, false, seed); common(r.dataset, n, dim, "Regression", "artificial regression", "regression"); auto w = rp(r.coef).x; if (!expect(w.size() == dim && r.dataset.classes().empty(), "regression/shape", "coefficients or classes")) continue; for (size_t j = 0; j < dim; j++) expect((j < inf) == (w[j] != 0), "regression/informative", "coefficients " + str(w) + " for " + std::to_string(inf) + " informative features"); double dev = 0;
        for (auto& p : pts(r.dataset)) { double e = bias, big = 0; for (size_t j = 0; j < dim; j++) { e += w[j] * p.x[j]; big = std::max(big, std::fabs(p.x[j])); } double res = p.y - e; expectf(noise > 0 ? std::fabs(res - mean) < 7 * noise : std::fabs(res) < 1e-9, "regression/target", [&] { return "a target differs by " + num(res) + " from the linear function"; }); dev = std::max(dev, std::fabs(res)); expect(big < 7 && big != 0, "regression/features", str(p.x)); }
        if (noise > 0) expect(n < 3 || dev > 1e-6, "regression/noise", "no noise"); if (seed) { auto s = g::make_regression(n, dim, bias, noise, mean, inf, true, seed); expect(rp(s.coef).x == w, "regression/coefficients", "shuffling changes the coefficients"); auto x = noid(r.dataset), y = noid(s.dataset); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); expect(x == y, "regression/shuffle", "shuffling changes the points"); expect(n < 8 || !(noid(r.dataset) == noid(s.dataset)), "regression/shuffle", "the points are not shuffled"); std::set<int> id; for (auto& p : pts(s.dataset)) id.insert(p.id); expect(id.size() == n, "regression/shuffle", "ids are lost"); } }
}
void vf::run() {
    int N = thorough() ? 60 : 24; for (size_t seed : {0, 1, 42}) {
        for (int n = 1; n <= N; n++) for (int nc = 1; nc <= 5; nc++) if (nc <= n) kase("spirals", "spirals " + std::to_string(n) + " classes " + std::to_string(nc) + " seed " + std::to_string(seed), [&] { for (size_t loops : {1, 2, 3}) for (double margin : {0.5, 1.25}) spirals(n, nc, loops, margin, seed); });
        for (int n = 1; n <= N; n++) for (int nc = 1; nc <= 5; nc++) if (nc <= n) kase("blobs", "blobs " + std::to_string(n) + " centers " + std::to_string(nc) + " seed " + std::to_string(seed), [&] { for (int dim = 1; dim <= 4; dim += 1 + (n > 8)) for (double s : {1e-6, 1.0, 3.5}) blobs(n, nc, dim, s, seed); });
        for (int nc = 1; nc <= 4; nc++) multisets(nc, 4, [&](const std::vector<int>& v) { kase("given", "given blobs " + str(v) + " seed " + std::to_string(seed), [&] { std::vector<size_t> per; for (int x : v) per.push_back(x + 1); for (int dim = 1; dim <= 3; dim++) given(per, dim, seed); }); });
        for (int n = 1; n <= N; n++) for (int dim = 1; dim <= 12; dim += 1 + dim / 3) kase("regression", "regression " + std::to_string(n) + " dim " + std::to_string(dim) + " seed " + std::to_string(seed), [&] { for (double bias : {0.0, -2.5}) for (int inf : {0, 1, dim / 2, dim, dim + 3}) regression(n, dim, bias, inf, seed); });
        for (int nc : {6, 8, 9, 10, 11, 13, 17}) kase("many", std::to_string(nc) + " classes seed " + std::to_string(seed), [&] { for (int n : {17, 40, 60}) { for (size_t loops : {1, 3}) spirals(n, nc, loops, 0.75, seed); for (int dim : {1, 2, 5}) blobs(n, nc, dim, 0.5, seed); } std::vector<size_t> per; for (int i = 0; i < 5; i++) per.push_back(1 + i % 3); given(per, 3, seed); while ((int)per.size() < nc) per.push_back(2); given(per, 2, seed); });
        for (int n : {100, 333, 1000}) kase("large", "sizes " + std::to_string(n) + " seed " + std::to_string(seed), [&] { spirals(n, 2, 2, 0.5, seed); spirals(n, 5, 3, 1, seed); blobs(n, 3, 5, 2, seed); blobs(n, 2, 50, 1, seed); regression(n, 40, 1, 10, seed); }); }
}
