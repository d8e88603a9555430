// C22: feature selection keeps the features its criterion ranks highest, projected from the samples given.
#include "cls.hpp"
#include "ufjfmltk/FeatureSelection.hpp"
using namespace ds; using namespace vf; using namespace cl; namespace fs = mltk::featselect;
// A learner with a given weight for each feature name, whose training fails on given numbers of features.
static std::map<int, double> wt; static std::set<int> fails; static std::vector<std::vector<int>> asked; static std::vector<std::string> seenData; static std::string form = "Primal"; static size_t full = 0; static std::map<int, int> errs; static bool moody = false; // moody: the answers depend on the points trained on and their order
static size_t mood = 0; // with errs, points with ids up to errs[features] are answered wrong, and training on a part of the samples gives other weights
struct Stub : mltk::classifier::PrimalClassifier<double> {
    int calls = 0; bool train() override { auto f = this->samples->getFeaturesNames(); if (full && this->samples->size() != full) { mood = 7; for (auto& p : pts(*this->samples)) mood = mood * 31 + p.id; this->solution.w.X().clear(); for (int i : f) this->solution.w.X().push_back(50 - (wt.count(i) ? std::abs(wt[i]) : 0)); return true; } asked.push_back(f); seenData.push_back(show(pts(*this->samples))); this->solution.w.X().clear(); for (int i : f) this->solution.w.X().push_back(wt.count(i) ? wt[i] : 0); this->solution.margin = f.size(); return !fails.count(f.size()); }
    double evaluate(const P& p, bool = false) override { if (errs.size()) { double y = p.Y(); if (moody) return (mood >> p.Id() % 16) & 1 ? y : -y; return p.Id() <= (size_t)errs[p.size()] ? -y : y; } return p[0] >= 0 ? 1 : -1; }
    std::string getFormulationString() override { return form; }
};
// the projection of d onto the features named in keep, in the order of d
static std::string projected(const D& d, const std::set<int>& keep) { auto f = d.getFeaturesNames(); auto v = pts(d); for (auto& p : v) { V x; for (size_t i = 0; i < f.size(); i++) if (keep.count(f[i])) x.push_back(p.x[i]); p.x = x; } std::vector<int> n; for (int i : f) if (keep.count(i)) n.push_back(i); return show(v) + str(n) + str(d.classes()); }
static std::string whole(const D& d) { return show(pts(d)) + str(d.getFeaturesNames()) + str(d.classes()); }
// r keeps n features of d, none of them with a smaller score than one which was removed
static void judge(D& r, const D& d, size_t n, const std::map<int, double>& score, const std::string& key) {
    auto names = r.getFeaturesNames(); std::set<int> keep(names.begin(), names.end()); auto ctx = [&] { std::string s = " scores"; for (auto& x : score) s += " " + std::to_string(x.first) + ":" + num(x.second); return s + " of " + show(d); }; count("selections");
    expectf(names.size() == n && keep.size() == n && r.dim() == n, key + "/number", [&] { return "features " + str(names) + " kept, dimension " + std::to_string(r.dim()) + ", expected " + std::to_string(n) + ctx(); });
    expectf(whole(r) == projected(d, keep), key + "/projection", [&] { return "the result is not the projection of the samples onto " + str(names) + ": " + whole(r); }); invariants(r, key + "/result");
    double lo = 1.0 / 0.0, hi = -1e300; for (auto& s : score) if (keep.count(s.first)) lo = std::min(lo, s.second); else hi = std::max(hi, s.second); expectf(lo >= hi || lo >= hi - 1e-9 * (1 + std::abs(hi)), key + "/criterion", [&] { return "features " + str(names) + " kept" + ctx(); });
}
static std::map<int, double> scores(const D& d, bool fisher) { std::map<int, double> s; auto p = pts(d); auto f = d.getFeaturesNames(); for (size_t i = 0; i < f.size(); i++) { V a, b; for (auto& q : p) (q.y == -1 ? a : b).push_back(q.x[i]); auto mean = [](const V& v) { double t = 0; for (double x : v) t += x; return t / v.size(); }; auto sd = [&](const V& v) { double m = mean(v), t = 0; for (double x : v) t += (x - m) * (x - m); return v.size() > 1 ? std::sqrt(t / (v.size() - 1)) : std::nan(""); }; double dm = std::abs(mean(a) - mean(b)), t = (fisher ? dm * dm : dm) / (sd(a) + sd(b)); s[f[i]] = std::isnan(t) ? 0 : t; } return s; }
// the number of features left when training fails on the given numbers of features, going down from `dim` to `goal` in steps of `jump`
static size_t left(size_t dim, size_t goal, size_t jump) { size_t last = dim, n = dim; while (n > goal) { size_t m = n >= goal + jump ? n - jump : goal; if (fails.count(m)) return last; last = n = m; } return goal; }
template <class S> static void filter(const D& d, size_t n, bool fisher, const std::string& key) {
    D src(d.copy()); Stub st; form = "Primal"; S sel(src, &st, n); auto sc = scores(d, fisher); auto before = show(d);
    for (int rep = 0; rep < 2; rep++) { asked.clear(); seenData.clear(); D r = sel.selectFeatures(); transition(); judge(r, d, left(d.dim(), n, 1), sc, key); expect(show(src) == before, key + "/data", "the samples changed to " + show(src)); for (size_t i = 0; i < asked.size(); i++) { std::set<int> k(asked[i].begin(), asked[i].end()); expect(seenData[i] + str(asked[i]) + str(d.classes()) == projected(d, k), key + "/training", "the learner is trained on " + seenData[i] + str(asked[i])); } if (r.size() > 1) { r.removePoint(r.point(0)->Id()); (*r[0])[0] = 77; r.shuffle(1); } }
}
static void both(const D& d, size_t n, const std::string& key) { filter<fs::Fisher<double>>(d, n, true, key + "/fisher"); filter<fs::Golub<double>>(d, n, false, key + "/golub"); }
static void rfe(const D& d, size_t n, int jump, const std::string& f, const std::string& key) {
    D src(d.copy()); Stub st; form = f; fs::RFE<double> sel(src, &st, n, nullptr, 1, jump); std::map<int, double> sc; for (int i : d.getFeaturesNames()) sc[i] = std::abs(wt[i]); auto before = show(d);
    for (int rep = 0; rep < 2; rep++) { asked.clear(); seenData.clear(); D r = sel.selectFeatures(); transition(); if (n == d.dim() || n == 0) { expect(r.size() == 0, key + "/invalid", "a result for an invalid depth"); continue; } if (fails.count(d.dim())) { judge(r, d, d.dim(), sc, key); continue; } judge(r, d, left(d.dim(), n, jump), sc, key); expect(show(src) == before, key + "/data", "the samples changed to " + show(src)); std::set<int> prev; for (size_t i = 0; i < asked.size(); i++) { std::set<int> k(asked[i].begin(), asked[i].end()); expect(seenData[i] + str(asked[i]) + str(d.classes()) == projected(d, k), key + "/training", "the learner is trained on " + seenData[i] + str(asked[i])); size_t m = i ? std::max<long>(long(d.dim()) - long(i) * jump, n) : d.dim(); expect(k.size() == m, key + "/steps", "step " + std::to_string(i) + " trains on " + std::to_string(k.size()) + " features"); if (i) expect(std::includes(prev.begin(), prev.end(), k.begin(), k.end()), key + "/steps", "a feature comes back"); prev = k; } if (r.size() > 1) (*r[0])[0] = 77; }
}
// elimination with cross validation of the steps: it stops at the first step validated whose error exceeds the initial one by more than the limit
static void rfecv(const D& d, size_t n, int jump, size_t qtde, int fold, int cvjump, double limit, const std::string& key) {
    D src(d.copy()); Stub st; form = "Primal"; full = d.size(); mltk::validation::CrossValidation cv; cv.qtde = qtde; cv.fold = fold; cv.jump = cvjump; cv.limit_error = limit; fs::RFE<double> sel(src, &st, n, &cv, 1, jump); std::map<int, double> sc; for (int i : d.getFeaturesNames()) sc[i] = std::abs(wt[i]); auto before = show(d);
    size_t dim = d.dim(), m = dim; auto err = [&](size_t f) { return 100.0 * errs[f] / d.size(); }; size_t last = dim; double at = 0; bool stale = true; for (;;) { if (fails.count(m)) { m = last; break; } size_t level = dim - m; if (level && level % cvjump == 0) { at = err(m); stale = false; } if (m == n || (!stale && at - err(dim) > limit)) break; last = m; m = m >= n + jump ? m - jump : n; }
    for (int rep = 0; rep < 2; rep++) { asked.clear(); seenData.clear(); D r = sel.selectFeatures(); transition(); judge(r, d, m, sc, key); expect(show(src) == before, key + "/data", "the samples changed to " + show(src)); for (size_t i = 0; i < asked.size(); i++) { std::set<int> k(asked[i].begin(), asked[i].end()); expect(seenData[i] + str(asked[i]) + str(d.classes()) == projected(d, k), key + "/training", "the learner is trained on " + seenData[i] + str(asked[i])); } }
    if (limit == 30) { moody = true; std::string first; for (int rep = 0; rep < 3; rep++) { Stub q; fs::RFE<double> again(src, &q, n, &cv, 1, jump); D r = (rep == 1 ? sel : again).selectFeatures(); if (!rep) first = whole(r); else expectf(whole(r) == first, key + "/again", [&] { return "selecting again with cross validation gives " + whole(r) + " after " + first; }); } moody = false; }
    full = 0;
}
static void aos(const D& d, size_t goal, size_t n, int breadth, int sort, int choice, int ahead, int cut, const std::string& key) {
    D src(d.copy()); Stub st; form = "Primal"; fs::AOS<double> sel(src, &st, goal, nullptr, breadth, sort, choice, ahead, cut); auto before = show(d); asked.clear(); seenData.clear(); D r = sel.selectFeatures(); transition(); auto names = r.getFeaturesNames(); std::set<int> keep(names.begin(), names.end()); auto ctx = [&] { return " breadth " + std::to_string(breadth) + " sorting " + std::to_string(sort) + " choice " + std::to_string(choice) + " look ahead " + std::to_string(ahead) + " cut " + std::to_string(cut) + " on " + show(d); }; count("selections");
    expectf(names.size() == n && keep.size() == n && r.dim() == n, key + "/number", [&] { return "features " + str(names) + " kept, dimension " + std::to_string(r.dim()) + ", expected " + std::to_string(n) + ctx(); }); expectf(whole(r) == projected(d, keep), key + "/projection", [&] { return "the result is not the projection of the samples onto " + str(names) + ": " + whole(r); }); invariants(r, key + "/result"); expectf(show(src) == before, key + "/data", [&] { return "the samples changed to " + show(src) + ctx(); });
}
static D named(D d, int scheme) { std::vector<int> n; for (size_t i = 0; i < d.dim(); i++) n.push_back(scheme == 0 ? i + 1 : scheme == 1 ? 3 * i : scheme == 2 ? 10 - i : (i * 5 + 2) % 11); d.setFeaturesNames(n); return d; }
template <class F> static void permutations(int n, F f) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i; do f(v); while (std::next_permutation(v.begin(), v.end())); }
void vf::run() {
    // datasets of two classes whose features take all patterns of two or three values per point
    V vals{0, 1, 3}; int c = 0;
    for (int n = 2; n <= 4; n++) for (int dim = 1; dim <= (thorough() ? 4 : 3); dim++) { std::vector<std::vector<int>> cols; product(n, n == 4 ? 2 : 3, [&](const std::vector<int>& v) { cols.push_back(v); }); multisets(dim, cols.size(), [&](const std::vector<int>& id) { if (c++ % (thorough() ? 3 : dim == 3 ? 23 : dim == 2 ? 3 : 1)) return; kase("filter", std::to_string(n) + " points, columns " + str(id), [&] { nontrivial(); for (int l = 1; l < (1 << n) - 1; l += n > 3 ? 3 : 1) { VV xs(n); V ys; for (int i = 0; i < n; i++) { for (int j : id) xs[i].push_back(vals[cols[j][i]]); ys.push_back(l >> i & 1 ? 1 : -1); } D d = named(make(xs, ys), (l + id[0]) % 4); for (int goal = 1; goal <= dim; goal++) { fails = {}; both(d, goal, "filter"); if (goal < dim) { fails = {goal}; both(d, goal, "filter-failing"); } } } fails = {}; }); }); }
    for (int dim = 1; dim <= (thorough() ? 6 : 5); dim++) permutations(dim, [&](const std::vector<int>& o) { kase("rfe", "weights in the order " + str(o), [&] { nontrivial(); for (int k = 0; k < 4; k++) { VV xs(4); V ys{1, -1, 1, -1}; for (int i = 0; i < 4; i++) for (int j = 0; j < dim; j++) xs[i].push_back(i * 7 + j * 2 + (i * j) % 3); D d = named(make(xs, ys), k); wt.clear(); auto f = d.getFeaturesNames(); for (int j = 0; j < dim; j++) wt[f[j]] = k == 3 ? (o[j] / 2) * (j % 2 ? -1 : 1) : (o[j] + 0.5) * ((o[j] + k) % 2 ? -1 : 1); for (int goal = 0; goal <= dim; goal++) for (int jump = 1; jump <= dim; jump++) for (int fl = -1; fl <= dim; fl++) { fails = {}; if (fl >= 0) { if (fl == 0 || (fl + k) % 2) continue; fails = {fl}; } rfe(d, goal, jump, fl % 2 ? "Primal" : "Dual", fails.empty() ? "rfe" : "rfe-failing"); } } fails = {}; }); });
    for (int dim = 6; dim <= (thorough() ? 40 : 20); dim += thorough() ? 1 : 4) for (int n = 5; n <= 30; n += 8) kase("size", "dimension " + std::to_string(dim) + " size " + std::to_string(n), [&] { nontrivial(); VV xs(n); V ys; for (int i = 0; i < n; i++) { ys.push_back(i % 3 ? 1 : -1); for (int j = 0; j < dim; j++) xs[i].push_back(3 * std::sin(i * (j + 1) * 1.7 + j * j) + ys[i] * ((j * 7) % 5)); } D d = named(make(xs, ys), 0); for (int goal = 1; goal <= dim; goal += 1 + dim / 7) { for (int f : {0, goal + 1, goal + 3, dim}) { fails = {f}; if (f < dim) both(d, goal, "size"); wt.clear(); for (int j = 1; j <= dim; j++) wt[j] = std::sin(j * 2.3 + n); for (int jump : {1, 2, 3, 7}) rfe(d, goal, jump, "Primal", "size/rfe"); } } fails = {}; });
    for (int dim = 2; dim <= (thorough() ? 6 : 5); dim++) for (int n = 4; n <= 7; n += 3) for (int k = 0; k < 4; k++) for (int sort = 1; sort <= 6; sort++) kase("aos", "dimension " + std::to_string(dim) + " size " + std::to_string(n) + " names " + std::to_string(k) + " sorting " + std::to_string(sort), [&] { nontrivial(); VV xs(n); V ys; for (int i = 0; i < n; i++) { ys.push_back(i % 2 ? 1 : -1); for (int j = 0; j < dim; j++) xs[i].push_back(3 * std::sin(i * (j + 1) * 1.7 + j * j) + ys[i] * ((j * 7) % 5)); } D d = named(make(xs, ys), k); wt.clear(); fails.clear(); for (int i : d.getFeaturesNames()) wt[i] = std::sin(i * 2.3 + n) + 0.1; for (int goal = 1; goal <= dim; goal++) for (int breadth = 1; breadth <= dim + 1; breadth++) for (int choice = 1; choice <= 2; choice++) for (int ahead = 0; ahead <= 2; ahead++) for (int cut = 0; cut <= 2; cut++) if ((goal * 31 + breadth * 17 + choice * 7 + ahead * 5 + cut * 3 + sort * 11 + k * 13 + dim + n) % (thorough() ? 53 : 983) == 0) { fails.clear(); aos(d, goal, goal, breadth, sort, choice, ahead, cut, "aos"); if (goal + 1 < dim && !ahead) { int f = goal + (breadth + cut) % (dim - 1 - goal); fails = {f}; aos(d, goal, f + 1, breadth, sort, choice, 0, cut, "aos-failing"); fails.clear(); } } });
    for (int dim = 2; dim <= (thorough() ? 5 : 4); dim++) permutations(dim, [&](const std::vector<int>& o) { kase("rfe-cv", "weights in the order " + str(o), [&] { nontrivial(); int n = 8, c = 0; VV xs(n); V ys; for (int i = 0; i < n; i++) { ys.push_back(i % 2 ? 1 : -1); for (int j = 0; j < dim; j++) xs[i].push_back(i * 7 + j * 2 + (i * j) % 3); } D d = named(make(xs, ys), 0); wt.clear(); for (int j = 0; j < dim; j++) wt[j + 1] = (o[j] + 0.5) * ((o[j]) % 2 ? -1 : 1);
        product(dim, 3, [&](const std::vector<int>& e) { for (int j = 0; j < dim; j++) errs[j + 1] = e[j] * 2; for (int goal = 1; goal < dim; goal++) for (int jump = 1; jump < dim; jump++) for (int cvjump = 1; cvjump <= 2; cvjump++) for (double limit : {0.0, 30.0, 1000.0}) for (int fl = 0; fl < dim; fl++) if (c++ % (thorough() ? 3 : 31) == 0) { fails = {}; if (fl) fails = {fl}; rfecv(d, goal, jump, limit == 30 ? 1 : 1 + c % 2, c % 3 ? 4 : 2, cvjump, limit, "rfe-cv"); } }); fails = {}; errs.clear(); }); });
}
