// C09: selecting and removing features: every subset of the names of small datasets, and single features of wide ones.
#include "dset.hpp"
using namespace ds; using namespace vf;
static void expect_view(const D& got, const D& src, const std::vector<int>& keep, bool keepIds, const std::string& key) { // keep: positions in src
    auto a = pts(got), b = pts(src); std::vector<int> fn; for (int j : keep) fn.push_back(src.getFeaturesNames()[j]);
    for (size_t i = 0; i < b.size(); i++) { std::vector<double> x; for (int j : keep) x.push_back(b[i].x[j]); b[i].x = x; if (!keepIds) b[i].id = i + 1; }
    expectf(a == b, key + "/points", [&] { return show(got) + " expected " + show(b); });
    expectf(got.getFeaturesNames() == fn, key + "/names", [&] { return "names " + str(got.getFeaturesNames()) + " expected " + str(fn); });
    expectf(got.dim() == keep.size(), key + "/dim", [&] { return "dimension " + std::to_string(got.dim()); });
    invariants(got, key);
}
static D src(int dim, int n, int var) { std::vector<int> l; for (int i = 0; i < n; i++) l.push_back(1 + (i * 2) % 3); D d = tagged(l, dim); std::vector<int> fn; for (int j = 0; j < dim; j++) fn.push_back(var == 0 ? j + 1 : var == 1 ? 2 * j + 3 : j * j + 1); if (var) d.setFeaturesNames(fn); if (var == 2) for (int i = 0; i < n; i++) { d.point(i)->Alpha() = i + 0.5; d.point(i)->Id() = 40 - i; } return d; }
static void subset(int dim, int n, int var, const std::vector<int>& keep, const std::string& key) {
    D d = src(dim, n, var); auto before = show(d); auto fn = d.getFeaturesNames(); std::vector<int> kn, rn; for (int j = 0; j < dim; j++) (std::find(keep.begin(), keep.end(), j) != keep.end() ? kn : rn).push_back(fn[j]);
    nontrivial(before + str(keep)); count("projections");
    auto perm = [](std::vector<int> v, int r) { if (r == 1) std::reverse(v.begin(), v.end()); if (r == 2 && v.size() > 1) std::rotate(v.begin(), v.begin() + 1, v.end()); return v; };
    for (int r = 0; r < 3; r++) {
        if (!kn.empty()) { auto p = perm(kn, r); std::vector<size_t> f(p.begin(), p.end());
            expect_view(d.selectFeatures(f), d, keep, true, key + "/select"); expect(show(d) == before, key + "/source", "selectFeatures changed its source");
            expect_view(d.insertFeatures(p, true), d, keep, true, key + "/insert"); expect_view(d.insertFeatures(p, false), d, keep, false, key + "/insert"); expect(show(d) == before, key + "/source", "insertFeatures changed its source: " + show(d)); }
        if (!rn.empty() && dim > 1 && !keep.empty()) { auto p = perm(rn, r);
            const D& c = d; expect_view(c.removeFeatures(p, -1), d, keep, true, key + "/remove"); auto q = p; q.push_back(99); expect_view(c.removeFeatures(q, p.size()), d, keep, true, key + "/remove"); expect(show(d) == before, key + "/source", "removeFeatures changed its source");
            D e = d; e.removeFeatures(p); expect_view(e, d, keep, true, key + "/remove");
            D g = d; auto w = p; w.push_back(1000); g.removeFeatures(w); expect_view(g, d, keep, true, key + "/remove-absent");
            { D u = d; auto dup = p; dup.insert(dup.end(), p.begin(), p.end()); u.removeFeatures(dup); expect_view(u, d, keep, true, key + "/remove-repeated");
              D v = d; auto un = fn; std::reverse(un.begin(), un.end()); v.setFeaturesNames(un); D v0 = v; std::vector<int> rm; for (int j = 0; j < dim; j++) if (std::find(keep.begin(), keep.end(), j) == keep.end()) rm.push_back(un[j]); v.removeFeatures(perm(rm, r)); expect_view(v, v0, keep, true, key + "/remove-unordered"); }
            D h = d; for (int x : p) h.removeFeatures({x}); expect_view(h, d, keep, true, key + "/remove-each");
            if (keep.size() >= 1) { std::vector<size_t> f(kn.begin(), kn.end()); D s = e.selectFeatures(f); expect_view(s, d, keep, true, key + "/select-after"); } }
    }
    if (keep.empty() || (int)keep.size() == dim) { D e = d; e.removeFeatures(std::vector<int>{}); expect(show(e) == before, key + "/nothing", "removing nothing changed the dataset"); }
}
void vf::run() {
    for (int dim = 1; dim <= (thorough() ? 8 : 6); dim++) for (int n : {1, 2, 5}) for (int var = 0; var < 3; var++) for (int mask = 0; mask < (1 << dim); mask++) kase("subset", "dim " + std::to_string(dim) + " n " + std::to_string(n) + " names " + std::to_string(var) + " mask " + std::to_string(mask), [&] { std::vector<int> k; for (int j = 0; j < dim; j++) if (mask >> j & 1) k.push_back(j); subset(dim, n, var, k, "subset"); });
    // wide datasets: each single feature, each prefix, suffix and pair of neighbours
    for (int dim : {9, 17, 33, 64}) for (int j = 0; j < dim; j++) kase("wide", "dim " + std::to_string(dim) + " at " + std::to_string(j), [&] {
        std::vector<int> one = {j}, pre, suf, but; for (int i = 0; i <= j; i++) pre.push_back(i); for (int i = j; i < dim; i++) suf.push_back(i); for (int i = 0; i < dim; i++) if (i != j) but.push_back(i);
        for (auto& k : {one, pre, suf, but}) for (int var : {0, 1}) subset(dim, 3, var, k, "wide"); });
    // a feature at a time down to one, in every order
    std::vector<int> o = {1, 2, 3, 4}; do kase("chain", "remove in order " + str(o), [&] { D d = src(4, 3, 0); std::vector<int> keep = {0, 1, 2, 3}; D orig = d; for (int i = 0; i < 3; i++) { d.removeFeatures({o[i]}); keep.erase(std::find(keep.begin(), keep.end(), o[i] - 1)); expect_view(d, orig, keep, true, "chain"); d.insertPoint(mk(std::vector<double>(d.dim(), 0.5), 1)); expect(d.getFeaturesNames().size() == d.dim() && d.getFeaturesNames()[0] == keep[0] + 1, "chain/names", "inserting a point changed the feature names: " + show(d)); d.removePoint(d.point(d.size() - 1)->Id()); } d.removeFeatures({o[3]}); expect(d.dim() == 1 && d.getFeaturesNames() == std::vector<int>({o[3]}), "chain/last", "the last feature was removed"); }); while (std::next_permutation(o.begin(), o.end()));
    // Lp normalization appends one positive coordinate and makes every point a unit vector in the same direction
    for (int dim = 1; dim <= 4; dim++) for (double p : {1.0, 2.0, 3.0}) product(dim, 4, [&](const std::vector<int>& v) { kase("normalize", "normalize p=" + num(p) + " " + str(v), [&] {
        const double A[] = {0, -1.5, 2, 1e3}; std::vector<double> x; for (int i : v) x.push_back(A[i]); D d = make({x, std::vector<double>(dim, 0.0), std::vector<double>(dim, 7)}, {1, 2, 1}); auto b = pts(d); auto fb = d.getFeaturesNames(); d.normalize(p); nontrivial();
        auto a = pts(d); expect(d.dim() == size_t(dim) + 1 && d.isNormalized(), "normalize/dim", "dimension after normalize " + show(d)); auto fn = d.getFeaturesNames(); expect(fn.size() == d.dim() && std::equal(fb.begin(), fb.end(), fn.begin()), "normalize/names", "names after normalize " + show(d));
        for (size_t i = 0; i < a.size(); i++) { double s = 0; for (double t : b[i].x) s += std::pow(std::abs(t), p); double norm = std::pow(s + 1, 1 / p); bool ok = a[i].y == b[i].y && a[i].id == b[i].id; for (int j = 0; ok && j <= dim; j++) ok = close(a[i].x[j], (j < dim ? b[i].x[j] : 1) / norm); expect(ok, "normalize/values", "normalized to " + show({a[i]}) + " from " + show({b[i]})); } }); });
}
