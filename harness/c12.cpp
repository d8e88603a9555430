// C12: seeded operations depend on their seed and inputs only, whatever was done before.
#include "dset.hpp"
#include "ufjfmltk/core/Sampling.hpp"
#include "ufjfmltk/core/Datasets.hpp"
#include "ufjfmltk/core/Random.hpp"
#include "ufjfmltk/Validation.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/clusterer/KMeans.hpp"
#include "ufjfmltk/ensemble/BaggingClassifier.hpp"
using namespace ds; using namespace vf;
template <class V> static std::string exact(const V& v) { std::string s; for (auto x : v) s += num(x) + ","; return s; }
static std::string exact(const D& d) { std::string s = show(d); for (auto& p : pts(d)) s += exact(p.x) + num(p.y) + ";"; return s; }
static D base(int which) { std::vector<int> l; int n = which == 0 ? 9 : which == 1 ? 14 : 23; for (int i = 0; i < n; i++) l.push_back(which == 1 ? (i * i) % 3 + 1 : (i % 3 ? 1 : -1)); D d = tagged(l); for (int i = 0; i < n; i++) { (*d.point(i))[0] = std::fmod(i * 3.7 + 0.4, 7) + (l[i] == 1 ? 6 : 0); (*d.point(i))[1] = std::fmod(i * 2.3 + 0.9, 5); } d.setName("b"); return d; }
struct Op { std::string name; std::function<std::string(int which, unsigned seed)> f; bool global = false; };
static std::vector<Op> ops() {
    using namespace mltk; using KNN = classifier::KNNClassifier<double>; namespace ds2 = mltk::datasets;
    std::vector<Op> o;
    o.push_back({"shuffle", [](int w, unsigned s) { D d = base(w); d.shuffle(s); return exact(d); }});
    o.push_back({"splitSample", [](int w, unsigned s) { D d = base(w); std::string r; for (auto& x : d.splitSample(3, true, true, s)) r += exact(x) + "|"; for (auto& x : d.splitSample(2, false, false, s)) r += exact(x) + "|"; return r; }});
    o.push_back({"sampling", [](int w, unsigned s) { D d = base(w); return exact(d.sampling(5, true, s)) + exact(d.sampling(6, false, s)); }});
    o.push_back({"kfoldsplit", [](int w, unsigned s) { D d = base(w); std::string r; for (auto& x : validation::kfoldsplit(d, 3, true, true, s)) r += exact(x.train) + exact(x.test) + "|"; for (auto& x : validation::kfoldsplit(d, 2, 2, false, true, s)) r += exact(x.train) + "|"; return r; }});
    o.push_back({"partTrainTest", [](int w, unsigned s) { D d = base(w); auto x = validation::partTrainTest(d, 3, true, true, s); return exact(x.train) + exact(x.test); }});
    o.push_back({"kfold", [](int w, unsigned s) { D d = base(w); KNN k(3); k.setVerbose(0); return num(validation::kfold(d, k, 3, true, s, 0).error) + "/" + num(validation::kkfold(d, k, 2, 4, true, s, 0).error); }});
    o.push_back({"SMOTE", [](int w, unsigned s) { D d = base(w); SMOTE<double> m(2, 0.1, s); m(d); return exact(d); }});
    o.push_back({"BorderlineSMOTEOne", [](int w, unsigned s) { D d = base(w); BorderlineSMOTEOne<double> m(2, 0.1, 3, s); m(d); return exact(d); }});
    o.push_back({"make_spirals", [](int w, unsigned s) { return exact(ds2::make_spirals(10 + w, 2 + w, w != 1, 0.5 * w, 2, 0.5, s)); }, true});
    o.push_back({"make_blobs", [](int w, unsigned s) { auto p = ds2::make_blobs(8 + w, 2 + w, 1 + w, 1.0, -10, 10, w != 1, w != 2, s); std::string r = exact(p.dataset); for (auto& c : p.centers) r += exact(c); return r; }, true});
    o.push_back({"make_blobs with centers", [](int w, unsigned s) { auto p = ds2::make_blobs({3}, {Point<double>({0, 0}), Point<double>({5, 5})}, {1, double(1 + w)}, 2, w != 1, true, s); return exact(p.dataset); }, true});
    o.push_back({"make_regression", [](int w, unsigned s) { auto p = ds2::make_regression(6 + w, 3, 1.5, w * 0.3, 0.01, 2, w != 1, s); return exact(p.dataset) + exact(p.coef); }, true});
    o.push_back({"random_init", [](int w, unsigned s) { Point<double> p(4), q(4); auto a = mltk::random_init<double>(4 + w, s); auto b = mltk::random_init<double>(-1.0, 3.0, 3 + w, s); auto c = mltk::random_init<double, std::normal_distribution<double>>(0.0, 1.0, 3, s); mltk::random_init(p, s); mltk::random_init(q, 4, s); return exact(a) + exact(b) + exact(c) + exact(p) + exact(q); }, true});
    o.push_back({"random::init and draws", [](int w, unsigned s) { mltk::random::init(s); std::string r; for (int i = 0; i < 3 + w; i++) r += std::to_string(mltk::random::intInRange<int, int>(-3, 9)) + "," + num(mltk::random::floatInRange<double>(0.0, 2.0)) + "," + num(mltk::random::floatInRange<double, std::normal_distribution<double>>(0.0, 1.0)) + ";"; return r; }, true});
    o.push_back({"RSM", [](int w, unsigned s) { D d = base(w); RSM<double> r(0.6, 4 + w, s); std::string t; for (int i = 0; i < 3; i++) t += str(r(d)); return t; }});
    for (const char* in : {"random", "kmeanspp"}) o.push_back({std::string("KMeans ") + in, [in](int w, unsigned s) { D d = base(w); clusterer::KMeans<double> k(d, 3, in, s, 0); k.train(); std::string r; for (auto& c : k.centers()) r += exact(c); return r; }, true});
    o.push_back({"BalancedPerceptron", [](int w, unsigned s) { D d = base(w == 1 ? 0 : w); classifier::BalancedPerceptron<double> b(d, s); b.setMaxEpochs(20); b.setMaxTime(1e9); b.train(); auto r = b.getSolution(); return exact(r.w) + num(r.bias); }, true});
    o.push_back({"Bagging of kNN", [](int w, unsigned s) { D d = base(w); ensemble::BaggingClassifier<double> b(d, KNN(1), 3, s); std::string r; b.train(); for (double x = 0; x < 14; x += 1.3) r += num(b.evaluate(mk({x, x / 3}, 0))) + ","; return r; }});
    o.push_back({"Bagging seeded later", [](int w, unsigned s) { D d = base(w); ensemble::BaggingClassifier<double> b(d, KNN(1), 3); b.setSeed(s); std::string r; b.train(); for (double x = 0; x < 14; x += 1.3) r += num(b.evaluate(mk({x, x / 3}, 0))) + ","; return r; }});
    return o;
}
static void permutation() { // shuffling keeps the points; random numbers are in range
    for (int n = 1; n <= (thorough() ? 60 : 30); n++) kase("shuffle", "shuffle of " + std::to_string(n), [&] { D d = patterned(n, n % 6); auto a = pts(d); std::sort(a.begin(), a.end()); std::set<std::string> seen; for (unsigned s = 0; s < 40; s++) { d.shuffle(s); invariants(d, "shuffle"); auto b = pts(d); std::sort(b.begin(), b.end()); expect(a == b, "shuffle/permutation", show(d)); if (n <= 3) { std::string o; for (auto& p : pts(d)) o += std::to_string(p.id); seen.insert(o); } transition(); }
        if (n <= 3) expect(seen.size() == (n == 3 ? 6u : (size_t)n), "shuffle/orders", "shuffling " + std::to_string(n) + " points with 40 seeds reaches " + std::to_string(seen.size()) + " orders"); });
    kase("ranges", "random numbers are in range", [&] { for (unsigned s = 0; s < 30; s++) { mltk::random::init(s); std::set<int> hit; for (int i = 0; i < 200; i++) { int a = mltk::random::intInRange<int, int>(-2, 2); expect(a >= -2 && a <= 2, "ranges/int", std::to_string(a)); hit.insert(a); size_t b = mltk::random::intInRange<size_t, size_t>(3, 5); expect(b >= 3 && b <= 5, "ranges/size_t", std::to_string(b)); double c = mltk::random::floatInRange<double>(-1.5, 2.5); expect(c >= -1.5 && c < 2.5, "ranges/double", num(c)); } expect(hit.size() == 5, "ranges/int", "some value is never drawn");
        for (int n : {1, 5, 40}) { for (double x : mltk::random_init<double>(n, s)) expect(x >= 0 && x < 1, "ranges/init", num(x)); auto p = mltk::random_init<double>(-4.0, -1.0, n, s); expect(p.size() == (size_t)n, "ranges/init", "size"); for (double x : p) expect(x >= -4 && x < -1, "ranges/init", num(x)); } } });
    for (int dims = 1; dims <= (thorough() ? 40 : 16); dims++) kase("rsm", "random subspaces of " + std::to_string(dims), [&] { D d = base(0); for (double r : {0.01, 0.25, 0.5, 0.75, 1.0}) for (unsigned s : {1, 2, 42}) { mltk::RSM<double> m(r, dims, s); for (int i = 0; i < 5; i++) { auto f = m(d); std::set<size_t> u(f.begin(), f.end()); expect(f.size() == (size_t)std::ceil(r * dims) && u.size() == f.size() && (u.empty() || *u.rbegin() < (size_t)dims), "rsm", "r " + num(r) + ": " + str(f)); transition(); } } });
}
void vf::run() {
    auto o = ops(); std::vector<unsigned> seeds = {1, 2, 42, 70000, 4000000000u}; if (thorough()) seeds = {1, 2, 3, 42, 1000, 4294967295u};
    auto run = [&](size_t i, int w, unsigned s) { transition(); return o[i].f(w, s); };
    // A B A for all pairs of operations, seeds and datasets; also A with other seeds of the same operation before
    for (size_t a = 0; a < o.size(); a++) for (unsigned s : seeds) for (int w = 0; w < 3; w++) kase("repeat", o[a].name + " seed " + std::to_string(s) + " data " + std::to_string(w), [&] {
        std::string first = run(a, w, s); expect(run(a, w, s) == first, o[a].name + "/again", "differs when repeated"); state(first); 
        for (size_t b = 0; b < o.size(); b++) for (unsigned t : seeds) for (int v = 0; v < 3; v++) { if (!thorough() && t != s && v != w) continue; nontrivial(o[a].name + std::to_string(s) + std::to_string(w) + o[b].name + std::to_string(t) + std::to_string(v)); run(b, v, t); expectf(run(a, w, s) == first, o[a].name + "/history", [&] { return o[a].name + " with seed " + std::to_string(s) + " differs after " + o[b].name + " with seed " + std::to_string(t); }); }
        // an unseeded operation in between, and the entropy source in another state
        for (size_t b = 0; b < o.size(); b++) { std::vf_entropy = 977 * b + 5; run(b, w, 0); expectf(run(a, w, s) == first, o[a].name + "/unseeded", [&] { return o[a].name + " with seed " + std::to_string(s) + " differs after an unseeded " + o[b].name; }); } });
    // two operations before A, for the ones which use the shared generator
    std::vector<size_t> g; for (size_t i = 0; i < o.size(); i++) if (o[i].global) g.push_back(i);
    for (size_t a : g) for (size_t b : g) kase("history2", o[a].name + " after " + o[b].name + " and another", [&] { std::string first = run(a, 1, 2); for (size_t c : g) for (unsigned t : {0u, 2u, 42u}) { run(b, 0, t); run(c, 2, 2); expect(run(a, 1, 2) == first, o[a].name + "/history2", o[a].name + " differs after " + o[b].name + " and " + o[c].name); } });
    permutation();
}
