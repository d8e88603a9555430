// C36: the ordered search with full breadth and without pruning returns a subset of features with the largest margin; with a smaller breadth it gives up the features its criterion ranks lowest.
#include <malloc.h>
#include "cls.hpp"
#include "ufjfmltk/FeatureSelection.hpp"
using namespace ds; using namespace vf; using namespace cl; namespace fs = mltk::featselect;
// the shortest vector between the convex hulls of the classes, over all sets of support points
static bool solve(std::vector<V> a, V& x) { size_t n = a.size(); for (size_t c = 0; c < n; c++) { size_t p = c; for (size_t r = c; r < n; r++) if (std::abs(a[r][c]) > std::abs(a[p][c])) p = r; if (std::abs(a[p][c]) < 1e-9) return false; std::swap(a[p], a[c]); for (size_t r = 0; r < n; r++) if (r != c) { double f = a[r][c] / a[c][c]; for (size_t k = c; k <= n; k++) a[r][k] -= f * a[c][k]; } } x.resize(n); for (size_t i = 0; i < n; i++) x[i] = a[i][n] / a[i][i]; return true; }
static double hulls(const VV& xs, const V& ys, V& w) {
    size_t n = xs.size(), dim = xs[0].size(); double best = 1e300; for (size_t m = 1; m < (size_t)1 << n; m++) { std::vector<int> s; bool pos = false, neg = false; for (size_t i = 0; i < n; i++) if (m >> i & 1) { s.push_back(i); (ys[i] > 0 ? pos : neg) = true; } if (!pos || !neg || s.size() > dim + 2) continue; size_t k = s.size(); std::vector<V> a(k + 2, V(k + 3)); for (size_t i = 0; i < k; i++) { for (size_t j = 0; j < k; j++) { double t = 0; for (size_t d = 0; d < dim; d++) t += xs[s[i]][d] * xs[s[j]][d]; a[i][j] = t * ys[s[i]] * ys[s[j]]; } size_t c = ys[s[i]] > 0 ? k : k + 1; a[i][c] = a[c][i] = 1; } a[k][k + 2] = a[k + 1][k + 2] = 1; V x; if (!solve(a, x)) continue; bool ok = true; for (size_t i = 0; i < k; i++) ok &= x[i] >= -1e-12; if (!ok) continue; V z(dim); double q = 0; for (size_t i = 0; i < k; i++) for (size_t d = 0; d < dim; d++) z[d] += x[i] * ys[s[i]] * xs[s[i]][d]; for (double v : z) q += v * v; if (q < best) { best = q; w = z; } }
    return std::sqrt(best);
}
// A learner which answers the true maximum margin.
struct Exact : mltk::classifier::PrimalClassifier<double> {
    static inline size_t full = 0; static inline double scale = 1; bool train() override { VV xs; V ys; for (auto& p : pts(*this->samples)) { xs.push_back(p.x); ys.push_back(p.y); } V w; double m = hulls(xs, ys, w); if (m < 1e-6 || m > 1e200) return false; for (double& v : w) v *= scale; this->solution.w = w; this->solution.margin = m / 2; this->solution.svs = 2; return true; }
    double evaluate(const P& p, bool = false) override { double s = 0; for (size_t i = 0; i < p.size() && i < this->solution.w.size(); i++) s += p[i] * this->solution.w[i]; return s >= 0 ? 1 : -1; } std::string getFormulationString() override { return "Primal"; }
};
// the projection of d onto the features named in keep, in the order of d
static std::string projected(const D& d, const std::set<int>& keep) { auto f = d.getFeaturesNames(); auto v = pts(d); for (auto& p : v) { V x; for (size_t i = 0; i < f.size(); i++) if (keep.count(f[i])) x.push_back(p.x[i]); p.x = x; } std::vector<int> n; for (int i : f) if (keep.count(i)) n.push_back(i); return show(v) + str(n) + str(d.classes()); }
static std::string whole(const D& d) { return show(pts(d)) + str(d.getFeaturesNames()) + str(d.classes()); }
static VV keep(const VV& xs, const std::vector<int>& f) { VV r; for (auto& x : xs) { V y; for (int i : f) y.push_back(x[i]); r.push_back(y); } return r; }
template <class L> static void search(const VV& xs, const V& ys, const std::vector<int>& names, size_t goal, int sort, int ahead, bool cv, double tol, const std::string& key) {
    size_t dim = xs[0].size(); std::map<size_t, double> best; for (size_t m = 1; m < (size_t)1 << dim; m++) { std::vector<int> f; for (size_t i = 0; i < dim; i++) if (m >> i & 1) f.push_back(i); V w; double h = hulls(keep(xs, f), ys, w); best[f.size()] = std::max(best[f.size()], h); if (h > 1e-9 && h < 1e-3) return; } if (best[dim] < 1e-3) return;
    size_t want = dim; for (size_t m = goal; m <= dim; m++) if (best[m] > 1e-3) { want = m; break; }
    D d = make(xs, ys); d.setFeaturesNames(names); D src(d.copy()); auto before = show(d); L l; mltk::validation::CrossValidation c; c.qtde = 1; c.fold = 2; c.jump = 1; fs::AOS<double> sel(src, &l, goal, cv ? &c : nullptr, dim + 1, sort, 1, ahead, dim + 1);
    for (int rep = 0; rep < 2; rep++) { D r = sel.selectFeatures(); transition(); count("searches"); auto ctx = [&] { return " keeping " + str(r.getFeaturesNames()) + " asked for " + std::to_string(goal) + " sorting " + std::to_string(sort) + " look ahead " + std::to_string(ahead) + (cv ? " validated" : "") + " on " + show(d); }; std::vector<int> f; { auto rn = r.getFeaturesNames(); std::set<int> k(rn.begin(), rn.end()); expectf(whole(r) == projected(d, k), key + "/projection", [&] { return "the result is not the projection of the samples: " + whole(r) + ctx(); }); invariants(r, key + "/result"); } for (int nm : r.getFeaturesNames()) f.push_back(std::find(names.begin(), names.end(), nm) - names.begin());
        if (!expectf(f.size() == want && r.dim() == want, key + "/number", [&] { return std::to_string(r.dim()) + " features, expected " + std::to_string(want) + ctx(); })) return; std::sort(f.begin(), f.end()); if (!expectf(f.back() < (int)dim, key + "/names", ctx)) return; V w; double h = hulls(keep(xs, f), ys, w); expectf(h >= best[want] * (1 - tol) - 1e-9, key + "/margin", [&] { return "margin " + num(h / 2) + ", the largest is " + num(best[want] / 2) + ctx(); }); expectf(show(src) == before, key + "/data", [&] { return "the samples changed to " + show(src); }); }
}
// breadth one: the feature removed in each step is the one of the smallest criterion
struct Given : Exact { static inline std::map<int, double> wt; static inline std::set<int> fails; bool train() override { auto f = this->samples->getFeaturesNames(); V w; for (int i : f) w.push_back(wt[i]); this->solution.w = w; this->solution.margin = f.size(); return !fails.count(f.size()); } };
static void greedy(const VV& xs, const V& ys, const std::vector<int>& names, size_t goal, int sort, const std::string& key) {
    D d = make(xs, ys); d.setFeaturesNames(names); size_t n = xs.size(); std::vector<int> left; for (size_t i = 0; i < names.size(); i++) left.push_back(i); bool tie = false;
    while (left.size() > goal) { V c; for (size_t t = 0; t < left.size(); t++) { if (sort >= 5) { double a[2] = {0, 0}, q[2] = {0, 0}, k[2] = {0, 0}; for (size_t i = 0; i < n; i++) { a[ys[i] > 0] += xs[i][left[t]]; k[ys[i] > 0]++; } for (int s : {0, 1}) a[s] /= k[s]; for (size_t i = 0; i < n; i++) q[ys[i] > 0] += std::pow(xs[i][left[t]] - a[ys[i] > 0], 2); if (k[0] < 2 || k[1] < 2 || (sort == 6 && k[0] != k[1])) return; double w = std::abs(Given::wt[names[left[t]]]), df = std::abs(a[0] - a[1]); c.push_back(sort == 5 ? w * df / (std::sqrt(q[0] / (k[0] - 1)) + std::sqrt(q[1] / (k[1] - 1))) : w * df * df / (q[0] + q[1])); continue; }
            std::vector<int> o = left; o.erase(o.begin() + t); V mp(o.size()), mn(o.size()), m(o.size()); double np = 0, nn = 0; for (size_t i = 0; i < n; i++) { (ys[i] > 0 ? np : nn)++; for (size_t k = 0; k < o.size(); k++) { (ys[i] > 0 ? mp : mn)[k] += xs[i][o[k]]; m[k] += xs[i][o[k]]; } } double dc = 0, ra = 0; for (size_t k = 0; k < o.size(); k++) dc += std::pow(mp[k] / np - mn[k] / nn, 2); for (size_t i = 0; i < n; i++) { double q = 0; for (size_t k = 0; k < o.size(); k++) q += std::pow(xs[i][o[k]] - m[k] / n, 2); ra = std::max(ra, q); } dc = std::sqrt(dc); ra = std::sqrt(ra); double w = std::abs(Given::wt[names[left[t]]]); c.push_back(sort == 1 ? w : sort == 2 ? w / dc : sort == 3 ? w * ra / dc : w * ra); }
        size_t b = 0; for (size_t t = 1; t < c.size(); t++) if (c[t] < c[b]) b = t; for (size_t t = 0; t < c.size(); t++) if (t != b && !(c[t] > c[b] * (1 + 1e-9) + 1e-12)) tie = true; left.erase(left.begin() + b); }
    if (tie) return; std::vector<int> e; for (int i : left) e.push_back(names[i]); Given l; D src(d.copy()); fs::AOS<double> sel(src, &l, goal, nullptr, 1, sort, 1, 0, names.size() + 1); D r = sel.selectFeatures(); transition(); count("searches"); auto f = r.getFeaturesNames(); expectf(f == e, key, [&] { std::string s; for (auto& x : Given::wt) s += " " + std::to_string(x.first) + ":" + num(x.second); return "features " + str(f) + " are kept, expected " + str(e) + " sorting " + std::to_string(sort) + " weights" + s + " on " + show(d); });
}
// any breadth, pruning, choice and look ahead: the size asked for, or the last one whose training succeeded
static void shape(const D& d, size_t goal, size_t n, int breadth, int sort, int choice, int ahead, int cut, const std::string& key) {
    D src(d.copy()); Given st; fs::AOS<double> sel(src, &st, goal, nullptr, breadth, sort, choice, ahead, cut); auto before = show(d); for (int rep = 0; rep < 2; rep++) { D r = sel.selectFeatures(); transition(); auto names = r.getFeaturesNames(); std::set<int> k(names.begin(), names.end()); auto ctx = [&] { return " breadth " + std::to_string(breadth) + " sorting " + std::to_string(sort) + " choice " + std::to_string(choice) + " look ahead " + std::to_string(ahead) + " cut " + std::to_string(cut) + (rep ? " again" : "") + " on " + show(d); }; count("searches");
        expectf(names.size() == n && k.size() == n && r.dim() == n, key + "/number", [&] { return "features " + str(names) + " kept, dimension " + std::to_string(r.dim()) + ", expected " + std::to_string(n) + ctx(); }); expectf(whole(r) == projected(d, k), key + "/projection", [&] { return "the result is not the projection of the samples onto " + str(names) + ": " + whole(r); }); invariants(r, key + "/result"); expectf(show(src) == before, key + "/data", [&] { return "the samples changed to " + show(src) + ctx(); }); }
}
static std::vector<int> nm(size_t dim, int k) { std::vector<int> n; for (size_t i = 0; i < dim; i++) n.push_back(k == 0 ? i + 1 : k == 1 ? 3 * i + 2 : 20 - i); return n; }
void vf::run() { mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_MMAP_THRESHOLD, 1 << 30);
    int c = 0; V vals{0, 1, 2.5};
    // all small patterns of values
    for (int n = 3; n <= 4; n++) for (int dim = 2; dim <= 3; dim++) { std::vector<std::vector<int>> rows; product(dim, n == 4 && dim == 3 ? 2 : 3, [&](const std::vector<int>& v) { rows.push_back(v); }); multisets(n, rows.size(), [&](const std::vector<int>& id) { if (c++ % (thorough() ? 2 : 23)) return; kase("search", "dim " + std::to_string(dim) + " rows " + str(id), [&] { nontrivial(); for (int l = 1; l < (1 << n) - 1; l++) { VV xs(n); V ys; for (int i = 0; i < n; i++) { for (int j = 0; j < dim; j++) xs[i].push_back(vals[rows[id[i]][j]] * (1 + 0.1 * j)); ys.push_back(l >> i & 1 ? 1 : -1); } for (int goal = 1; goal < dim; goal++) search<Exact>(xs, ys, nm(dim, (l + goal) % 3), goal, 1 + (l + id[0]) % 4, 0, false, 1e-6, "search"); } }); }); }
    // patterned data of more features: every goal, sorting, look ahead, with and without cross validation
    for (int dim = 3; dim <= (thorough() ? 8 : 6); dim++) for (int n = 4; n <= 7; n++) for (int pat = 0; pat < (thorough() ? 24 : 8); pat++) kase("patterned", "dim " + std::to_string(dim) + " size " + std::to_string(n) + " pattern " + std::to_string(pat), [&] { nontrivial(); VV xs(n); V ys; for (int i = 0; i < n; i++) { ys.push_back(i % 2 ? 1 : -1); for (int j = 0; j < dim; j++) xs[i].push_back(2 * std::sin(i * (j + 1) * 1.7 + j * j + pat * 1.3) + (pat % 3) * 0.4 * ys[i] * ((j * 7 + pat) % 5)); }
        for (int goal = 1; goal < dim; goal++) for (int sort = 1; sort <= 6; sort++) for (int ahead = 0; ahead <= 2; ahead++) for (int cv = 0; cv < 2; cv++) if ((goal * 7 + sort * 5 + ahead * 3 + cv + pat + n) % (thorough() ? 2 : 11) == 0) { Exact::scale = pat % 2 ? 1 : 3.5; search<Exact>(xs, ys, nm(dim, (pat + sort) % 3), goal, sort, ahead, cv, 1e-6, std::string("patterned") + (cv ? "/validated" : "") + (ahead ? "/ahead" : "")); } Exact::scale = 1; });
    for (int dim = 2; dim <= (thorough() ? 9 : 6); dim++) for (int pat = 0; pat < (thorough() ? 60 : 20); pat++) kase("greedy", "dim " + std::to_string(dim) + " pattern " + std::to_string(pat), [&] { nontrivial(); int n = 4 + pat % 3; VV xs(n); V ys; for (int i = 0; i < n; i++) { ys.push_back(i % 2 ? 1 : -1); for (int j = 0; j < dim; j++) xs[i].push_back(2 * std::sin(i * (j + 1) * 1.7 + j * j + pat * 1.3) + 0.4 * ys[i] * ((j * 7 + pat) % 5)); } auto names = nm(dim, pat % 3); Given::wt.clear(); for (int j = 0; j < dim; j++) Given::wt[names[j]] = std::sin(j * 2.3 + pat) * 2; for (int goal = 1; goal < dim; goal++) for (int sort = 1; sort <= 6; sort++) if (thorough() || (goal + sort + pat) % 2) greedy(xs, ys, names, goal, sort, "greedy/sorting" + std::to_string(sort)); });
    for (int dim = 2; dim <= (thorough() ? 6 : 5); dim++) for (int n = 4; n <= 7; n += 3) for (int k = 0; k < 3; k++) for (int sort = 1; sort <= 6; sort++) kase("shape", "dim " + std::to_string(dim) + " size " + std::to_string(n) + " names " + std::to_string(k) + " sorting " + std::to_string(sort), [&] { nontrivial(); VV xs(n); V ys; for (int i = 0; i < n; i++) { ys.push_back(i % 2 ? 1 : -1); for (int j = 0; j < dim; j++) xs[i].push_back(3 * std::sin(i * (j + 1) * 1.7 + j * j) + ys[i] * ((j * 7) % 5)); } auto names = nm(dim, k); D d = make(xs, ys); d.setFeaturesNames(names); Given::wt.clear(); Given::fails.clear(); for (int i : names) Given::wt[i] = std::sin(i * 2.3 + n) + 0.1;
        for (int goal = 1; goal <= dim; goal++) for (int breadth = 1; breadth <= dim + 1; breadth++) for (int choice = 1; choice <= 2; choice++) for (int ahead = 0; ahead <= 2; ahead++) for (int cut = 0; cut <= 2; cut++) if ((goal * 31 + breadth * 17 + choice * 7 + ahead * 5 + cut * 3 + sort * 11 + k * 13 + dim + n) % (thorough() ? 7 : 53) == 0) { shape(d, goal, goal, breadth, sort, choice, ahead, cut, "shape"); if (goal + 1 < dim && !ahead) { int f = goal + (breadth + cut) % (dim - 1 - goal); Given::fails = {f}; shape(d, goal, f + 1, breadth, sort, choice, 0, cut, "shape-failing"); Given::fails.clear(); } } });
}
