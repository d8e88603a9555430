// C13: cross validation splits and the errors they are averaged to.
#include "dset.hpp"
#include "ufjfmltk/valid/Validation.hpp"
#include "ufjfmltk/Validation.hpp"
using namespace ds; using namespace vf; using namespace mltk::validation;
// a copy whose points are numbered in order, after checking that the ids are 1..m in some order
static D renumbered(const D& d, bool keep, const std::string& key) { D c = d.copy(); if (keep) return c; std::set<int> s; for (auto& p : pts(d)) s.insert(p.id); expectf(s.size() == d.size() && (s.empty() || (*s.begin() == 1 && *s.rbegin() == (int)d.size())), key + "/ids", [&] { return "ids are not 1..m: " + show(d); }); for (size_t i = 0; i < c.size(); i++) c.point(i)->Id() = i + 1; return c; }
static std::multiset<double> ids(const D& d) { std::multiset<double> s; for (auto& p : pts(d)) s.insert(p.x[0]); return s; }
struct Rec { std::multiset<double> train; std::vector<double> tested; bool sameAttrs = true; double tp = 0, tn = 0, fp = 0, fn = 0; };
// A classifier which records what it is trained and tested on and errs on the points of a mask (by first feature).
template <class Base> struct Stub : Base {
    std::vector<Rec> runs; std::set<double> wrong; const D* src = nullptr; 
    bool train() override { Rec r; r.train = ids(*this->samples); r.sameAttrs = this->samples->isClassification() == src->isClassification(); runs.push_back(r); return runs.size() % 3 != 0; }
    double evaluate(const P& p, bool = false) override { runs.back().tested.push_back(p[0]); { auto& r = runs.back(); bool bad = wrong.count(p[0]), neg = p.Y() == -1; (neg ? bad ? r.fp : r.tn : bad ? r.fn : r.tp)++; } return wrong.count(p[0]) ? p.Y() + 1 : p.Y(); }
    std::string getFormulationString() override { return std::is_same_v<Base, mltk::classifier::DualClassifier<double>> ? "Dual" : "Primal"; }
};
template <class S> static void cv(const D& d, int k, int reps, bool strat, int seed, unsigned mask, const std::string& key) {
    constexpr bool dual = std::is_base_of_v<mltk::classifier::DualClassifier<double>, S>; bool two = reps > 0;
    S s; s.src = &d; auto all = pts(d); for (size_t i = 0; i < all.size(); i++) if (mask >> (i % 31) & 1) s.wrong.insert(all[i].x[0]); auto before = show(d); count("cross validations");
    auto r = two ? kkfold(D(d), s, reps, k, strat, seed, 0) : kfold(D(d), s, k, strat, seed, 0);
    expect(show(d) == before, key + "/source", "the dataset changed"); auto full = ids(d); size_t n = two ? reps : 1; double tot = 0;
    if (!expectf(s.runs.size() == n * k + two, key + "/runs", [&] { return "trained " + std::to_string(s.runs.size()) + " times for " + std::to_string(n) + " x " + std::to_string(k) + " folds"; })) return;
    for (size_t e = 0; e < n; e++) { std::multiset<double> tested; double err = 0;
        for (int f = 0; f < k; f++) { auto& run = s.runs[e * k + f]; std::multiset<double> t(run.tested.begin(), run.tested.end()), u = run.train; size_t w = 0; for (double x : run.tested) w += s.wrong.count(x); err += 100.0 * w / run.tested.size(); tested.insert(t.begin(), t.end()); expect(run.sameAttrs, key + "/type", "the training part is of another kind");
            bool leak = false; for (double x : t) leak |= run.train.count(x) > 0;
            if (leak) fail(key + (dual ? "/dual-trains-on-test-points" : "/leak"), "fold " + std::to_string(f) + ": the model was trained on points it is tested on"); else { u.insert(t.begin(), t.end()); expect(u == full, key + "/complement", "fold " + std::to_string(f) + ": training and test parts are not the whole dataset"); } 
            expect(run.tested.size() >= d.size() / k && run.tested.size() <= (d.size() + k - 1) / k, key + "/sizes", "fold " + std::to_string(f) + " tests " + std::to_string(run.tested.size()) + " points"); }
        expect(tested == full, key + "/tested", "the folds of an execution do not test every point exactly once"); tot += err / k; }
    tot /= n; expectf(close(r.error, tot, 1e-9) && close(r.accuracy, 100 - tot, 1e-9), key + "/error", [&] { return "reported error " + num(r.error) + " and accuracy " + num(r.accuracy) + ", mean error of the folds " + num(tot); });
    if (!two && d.classes().size() == 2) { double v[7] = {}; for (auto& x : s.runs) { v[0] += x.tp; v[1] += x.tn; v[2] += x.fp; v[3] += x.fn; v[4] += x.tp / (x.tp + x.fp) / k; v[5] += x.tp / (x.tp + x.fn) / k; v[6] += x.tn / (x.tn + x.fp) / k; } double g[7] = {(double)r.truePositive, (double)r.trueNegative, (double)r.falsePositive, (double)r.falseNegative, r.precision, r.recall, r.tnrate}; static const char* nm[7] = {"truePositive", "trueNegative", "falsePositive", "falseNegative", "precision", "recall", "tnrate"}; count("reports"); for (int i = 0; i < 7; i++) expectf(std::isnan(v[i]) || close(g[i], v[i], 1e-9), key + "/" + nm[i], [&] { return "reported " + num(g[i]) + ", the predictions of the folds give " + num(v[i]); }); }
}
static void split(D& d, int k, int reps, bool strat, bool keep, int seed, const std::string& key) {
    auto before = show(d); auto fs = reps ? kfoldsplit(d, k, reps, strat, keep, seed) : kfoldsplit(d, k, strat, keep, seed); expect(show(d) == before, key + "/source", "the dataset changed"); count("splits"); nontrivial(before + std::to_string(k) + "r" + std::to_string(reps) + (strat ? "s" : "") + (keep ? "k" : "") + std::to_string(seed));
    size_t n = reps ? reps : 1; if (!expect(fs.size() == n * k, key + "/count", std::to_string(fs.size()) + " folds")) return;
    for (size_t e = 0; e < n; e++) { std::vector<const D*> tests; std::vector<D> own; for (int f = 0; f < k; f++) own.push_back(renumbered(fs[e * k + f].test, keep, key + "/test")); for (auto& o : own) tests.push_back(&o); partition(d, tests, keep, key + "/test"); balanced(d, tests, strat && d.isClassification(), key + "/test");
        for (int f = 0; f < k; f++) { auto& p = fs[e * k + f]; expect((int)p.fold == f + 1 && (!reps || p.execution == e + 1), key + "/numbering", "fold " + std::to_string(p.fold) + " execution " + std::to_string(p.execution));
            auto strip = [&](const D& x) { std::vector<RP> v = pts(x); if (!keep) for (auto& q : v) q.id = 0; return v; }; auto a = strip(p.train), b = strip(p.test), w = strip(d); a.insert(a.end(), b.begin(), b.end()); std::sort(a.begin(), a.end()); std::sort(w.begin(), w.end()); expectf(a == w, key + "/complement", [&] { return "training {" + show(p.train) + "} and test {" + show(p.test) + "} are not the dataset"; });
            invariants(p.train, key + "/train", d.isClassification()); expect(p.train.isClassification() == d.isClassification() && p.train.getFeaturesNames() == d.getFeaturesNames(), key + "/attributes", "kind or feature names differ: " + show(p.train)); } }
    if (seed) { D c = d.copy(); auto g = reps ? kfoldsplit(c, k, reps, strat, keep, seed) : kfoldsplit(c, k, strat, keep, seed); bool same = g.size() == fs.size(); for (size_t i = 0; same && i < g.size(); i++) same = show(g[i].train) == show(fs[i].train) && show(g[i].test) == show(fs[i].test); expect(same, key + "/seed", "the same seed gives other folds"); }
}
static void holdout(D& d, int k, bool strat, bool keep, int seed, const std::string& key) {
    auto before = show(d); auto p = partTrainTest(d, k, strat, keep, seed); expect(show(d) == before, key + "/source", "the dataset changed"); 
    D a = renumbered(p.train, keep, key), b = renumbered(p.test, keep, key); std::vector<const D*> v{&a, &b}; partition(d, v, keep, key); 
    size_t lo = d.size() / k, hi = (d.size() + k - 1) / k; expect(p.test.size() >= lo && p.test.size() <= hi, key + "/size", "test part of " + std::to_string(p.test.size()) + " points of " + std::to_string(d.size()) + " for " + std::to_string(k) + " folds");
    if (strat && d.isClassification()) { std::map<double, size_t> n, c; for (auto& q : pts(d)) n[q.y]++; for (auto& q : pts(p.test)) c[q.y]++; for (auto& q : n) expect(c[q.first] >= q.second / k && c[q.first] <= (q.second + k - 1) / k, key + "/stratified", "class " + num(q.first) + " has " + std::to_string(c[q.first]) + " of " + std::to_string(q.second) + " points in the test part"); }
    if (seed) { D c = d.copy(); auto q = partTrainTest(c, k, strat, keep, seed); expect(show(q.train) == show(p.train) && show(q.test) == show(p.test), key + "/seed", "the same seed gives another split"); }
}
static void all(D& d, int n, bool big) {
    std::set<int> ks; for (int k = 2; k <= std::min(n, big ? 3 : n); k++) ks.insert(k); if (big) { ks.insert(5 + n % 6); if (n % 4 == 0) ks.insert(n); }; if (thorough()) { ks.insert(10); ks.insert(n / 2); }
    for (int k : ks) if (k >= 2 && k <= n) for (int strat = 0; strat < 2; strat++) { 
        for (int keep = 0; keep < 2; keep++) for (int seed : {0, 1, 42}) if (seed != 42 || !big) { split(d, k, 0, strat, keep, seed, "kfoldsplit"); if (seed == 1 && (!big || k < 4)) split(d, k, 2 + keep, strat, keep, seed, "kkfoldsplit"); holdout(d, k, strat, keep, seed, "partTrainTest"); }
        using PS = Stub<mltk::classifier::Classifier<double>>; using DS = Stub<mltk::classifier::DualClassifier<double>>;
        for (unsigned mask : {1u, 0x55555555u, 0x2cu, ~0u}) for (int seed : {0, 7}) if (!big || (mask == 0x2c) == !seed) { cv<PS>(d, k, 0, strat, seed, mask, "kfold"); if (mask == 0x2c) cv<DS>(d, k, 0, strat, seed, mask, "kfold"); if (seed && mask != ~0u && k < 4) { cv<PS>(d, k, 2, strat, seed, mask, "kkfold"); if (k == 2) cv<DS>(d, k, 2, strat, seed, mask, "kkfold"); } } }
}
void vf::run() {
    for (int n = 2; n <= (thorough() ? 7 : 6); n++) for (int base = 1; base <= 3; base++) product(n, base, [&](const std::vector<int>& l) { if (base == 3 && n > (thorough() ? 6 : 4)) return; kase("labels", "labels " + str(l) + "/" + std::to_string(base), [&] { auto m = l; for (auto& x : m) x = base == 2 ? 1 - 2 * x : 2 * x + 1; D d = tagged(m); d.setName("x"); if (l[0]) d.shuffle(n); if (base == 1) d.setType("Regression"); all(d, n, false); }); });
    for (int n = 7; n <= (thorough() ? 100 : 28); n++) for (int pat = 0; pat < 6; pat++) kase("size", "size " + std::to_string(n) + " pattern " + std::to_string(pat), [&] { D d = patterned(n, pat, 2); if (n % 3 == 0) d.setFeaturesNames({7, 3}); if (n % 2) d.shuffle(n); all(d, n, true); });
}
