// C37: what is printed is what was done, and how much is printed changes nothing.
#include "cls.hpp"
#include "ufjfmltk/Classifier.hpp"
#include "ufjfmltk/Ensemble.hpp"
#include "ufjfmltk/Regressor.hpp"
#include "ufjfmltk/Clusterer.hpp"
#include "ufjfmltk/Validation.hpp"
#include "ufjfmltk/FeatureSelection.hpp"
using namespace ds; using namespace vf; using namespace cl; namespace mc = mltk::classifier; namespace fs = mltk::featselect;
// everything f prints to the standard streams, numbers in full
template <class F> static std::string printed(F f) { std::ostringstream o; o.precision(17); auto p = std::cout.precision(17); auto *c = std::cout.rdbuf(o.rdbuf()), *e = std::cerr.rdbuf(o.rdbuf()), *l = std::clog.rdbuf(o.rdbuf()); try { f(); } catch (...) { std::cout.rdbuf(c); std::cerr.rdbuf(e); std::clog.rdbuf(l); std::cout.precision(p); throw; } std::cout.rdbuf(c); std::cerr.rdbuf(e); std::clog.rdbuf(l); expect(std::cout.precision() == 17, "format", "the precision of the standard output is changed"); std::cout.precision(p); return o.str(); }
// the numbers which follow a text, one for each place it is found at
static V after(const std::string& s, const std::string& t) { V r; for (size_t at = s.find(t); at != std::string::npos; at = s.find(t, at + 1)) { const char* b = s.c_str() + at + t.size(); char* e; double v = std::strtod(b, &e); r.push_back(e == b ? std::nan("") : v); } return r; }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; std::string l; std::istringstream in(s); while (std::getline(in, l)) r.push_back(l); return r; }
static std::string brief(const std::string& s) { return s.size() > 700 ? s.substr(0, 350) + " ... " + s.substr(s.size() - 350) : s; }
static void one(const std::string& out, const std::string& text, double v, const std::string& key, const std::string& ctx) { auto a = after(out, text); count("numbers read"); expectf(a.size() == 1 && close(a[0], v, 1e-9), key, [&] { return "'" + text + "' is printed as " + str(a) + ", expected " + num(v) + " " + ctx + ": " + brief(out); }); }
static void vec(const std::string& out, const V& w, double b, const std::string& key, const std::string& ctx) { for (size_t i = 0; i < w.size(); i++) one(out, "W[" + std::to_string(i) + "]: ", w[i], key + "/weights", ctx); one(out, "Bias: ", b, key + "/bias", ctx); }
using L = mltk::Learner<double>; using LP = std::shared_ptr<L>;
static int verb = 0; template <class B> static B loud(B b) { b.setVerbose(verb); b.setMaxIterations(400); b.setSeed(7); return b; }
struct Algo { std::string name; std::function<LP(const D&)> mk; int needs; }; // needs: 0 any, 1 no contradictions, 2 separable
static std::vector<Algo> algos() { std::vector<Algo> v; using namespace mltk;
    v.push_back({"perceptron", [](const D& d) -> LP { return std::make_shared<mc::PerceptronPrimal<double>>(d, 2, 0.5); }, 2}); v.push_back({"fixed", [](const D& d) -> LP { return std::make_shared<mc::PerceptronFixedMarginPrimal<double>>(d, 0); }, 2}); v.push_back({"balanced", [](const D& d) -> LP { return std::make_shared<mc::BalancedPerceptron<double>>(d, 7); }, 2}); v.push_back({"dual", [](const D& d) -> LP { return std::make_shared<mc::PerceptronDual<double>>(d, INNER_PRODUCT, 0, 0.5); }, 2}); v.push_back({"dual-gauss", [](const D& d) -> LP { return std::make_shared<mc::PerceptronDual<double>>(d, GAUSSIAN, 0.8, 1.0); }, 1});
    v.push_back({"ima", [](const D& d) -> LP { return std::make_shared<mc::IMAp<double>>(d); }, 2}); v.push_back({"ima-dual", [](const D& d) -> LP { return std::make_shared<mc::IMADual<double>>(d, INNER_PRODUCT); }, 2}); v.push_back({"ima-gauss", [](const D& d) -> LP { return std::make_shared<mc::IMADual<double>>(d, GAUSSIAN, 0.8); }, 1});
    v.push_back({"smo", [](const D& d) -> LP { return std::make_shared<mc::SMO<double>>(d, INNER_PRODUCT); }, 2}); v.push_back({"smo-gauss", [](const D& d) -> LP { return std::make_shared<mc::SMO<double>>(d, GAUSSIAN, 0.8); }, 1}); v.push_back({"smo-poly", [](const D& d) -> LP { return std::make_shared<mc::SMO<double>>(d, POLYNOMIAL, 2); }, 2});
    v.push_back({"lms", [](const D& d) -> LP { return std::make_shared<mltk::regressor::LMSPrimal<double>>(d, 0.05); }, 0}); v.push_back({"kmeans", [](const D& d) -> LP { return std::make_shared<mltk::clusterer::KMeans<double>>(d, 2, "kmeanspp", 7, 0); }, 0}); v.push_back({"random-kmeans", [](const D& d) -> LP { return std::make_shared<mltk::clusterer::KMeans<double>>(d, 2, "random", 7, 0); }, 0}); v.push_back({"knn", [](const D& d) -> LP { return std::make_shared<mc::KNNClassifier<double>>(const_cast<D&>(d), 1); }, 0}); v.push_back({"fixed-dual", [](const D& d) -> LP { return std::make_shared<mc::PerceptronFixedMarginDual<double>>(d, INNER_PRODUCT, 0, 0.01); }, 2}); v.push_back({"knn-regressor", [](const D& d) -> LP { return std::make_shared<mltk::regressor::KNNRegressor<double>>(const_cast<D&>(d), 2); }, 0});
    namespace me = mltk::ensemble; v.push_back({"onevsall", [](const D& d) -> LP { auto b = loud(mc::PerceptronPrimal<double>()); return std::make_shared<mc::OneVsAll<double>>(const_cast<D&>(d), b, nullptr, verb); }, 0}); v.push_back({"onevsone", [](const D& d) -> LP { auto b = loud(mc::PerceptronDual<double>(d, GAUSSIAN, 0.7)); return std::make_shared<mc::OneVsOne<double>>(const_cast<D&>(d), b, nullptr, verb); }, 0}); v.push_back({"voting", [](const D& d) -> LP { return std::make_shared<me::VotingClassifier<double>>(const_cast<D&>(d), "hard", loud(mc::KNNClassifier<double>(1)), loud(mc::PerceptronPrimal<double>()), loud(mc::KNNClassifier<double>(3))); }, 0}); v.push_back({"bagging", [](const D& d) -> LP { auto b = loud(mc::KNNClassifier<double>(1)); return std::make_shared<me::BaggingClassifier<double>>(d, b, 3, 7); }, 0}); v.push_back({"adaboost", [](const D& d) -> LP { mc::BalancedPerceptron<double> b; b.setMaxEpochs(3); b = loud(b); return std::make_shared<me::AdaBoostClassifier<double>>(d, b, 2); }, 0});
    return v; }
static std::string sol(L& l) { auto f = [](auto* c) -> std::string { if (!c) return ""; auto s = c->getSolution(); return "w" + str(V(s.w.begin(), s.w.end())) + " b" + num(s.bias) + " a" + str(s.alpha) + " m" + num(s.margin) + " n" + num(s.norm) + " s" + std::to_string(s.svs); }; std::string r = f(dynamic_cast<mc::Classifier<double>*>(&l)) + f(dynamic_cast<mltk::regressor::Regressor<double>*>(&l)); if (auto k = dynamic_cast<mltk::clusterer::KMeans<double>*>(&l)) for (auto& c : k->centers()) r += str(V(c.begin(), c.end())); return r + " steps " + std::to_string(l.getSteps()) + " updates " + std::to_string(l.getCtot()); }
static void learner(const Algo& a, const D& src, const std::string& key) {
    std::string first; for (int v : {0, 1, 2, 3}) { LP l; bool r = false; std::string out, k = key + "/" + a.name, res; verb = v; D d(src.copy()); out = printed([&] { l = a.mk(d); l->setVerbose(v); l->setSeed(7); l->setMaxIterations(a.name == "lms" ? 30 : 2000); l->setMaxUpdates(100000000); r = l->train(); }); transition(); res = std::to_string(r) + sol(*l); for (auto& q : queries(src)) res += " " + num(l->evaluate(mk(q, 0))); auto ctx = "verbosity " + std::to_string(v) + " on " + show(src);
        if (!v) { first = res; if (a.name != "kmeans") expectf(out.empty(), k + "/silent", [&] { return "without verbosity it prints " + brief(out); }); continue; } expectf(res == first, k + "/changes", [&] { return "with " + ctx + " training gives " + res + ", without verbosity " + first; });
        V w; double b = 0, m = 0; unsigned svs = 0; if (auto c = dynamic_cast<mc::Classifier<double>*>(l.get())) { auto s = c->getSolution(); w.assign(s.w.begin(), s.w.end()); b = s.bias; m = s.margin; svs = s.svs; } if (auto c = dynamic_cast<mltk::regressor::Regressor<double>*>(l.get())) { auto s = c->getSolution(); w.assign(s.w.begin(), s.w.end()); b = s.bias; }
        if (a.name.substr(0, 3) == "ima" && r) { one(out, "Number of steps through data: ", l->getSteps(), k + "/steps", ctx); one(out, "Number of updates: ", l->getCtot(), k + "/updates", ctx); one(out, "Margin found: ", m, k + "/margin", ctx); one(out, a.name == "ima" ? "Number of Support Vectors: " : "Number of support vectors: ", svs, k + "/svs", ctx); if (v >= (a.name == "ima" ? 2 : 3)) vec(out, w, b, k, ctx); }
        if (a.name.substr(0, 3) == "smo" && r) { one(out, "Number of Support Vectors: ", svs, k + "/svs", ctx); one(out, "Margin found: ", m, k + "/margin", ctx); if (v > 1) vec(out, w, b, k, ctx); auto p = pts(*l->getSamples()); auto al = dynamic_cast<mc::Classifier<double>*>(l.get())->getSolution().alpha; for (size_t i = 0; i < p.size(); i++) { auto t = std::to_string(i + 1) + " -> "; for (auto& x : lines(out)) if (x.compare(0, t.size(), t) == 0) { double f = after(x, t).at(0), y = l->evaluate(mk(p[i].x, 0), true); count("numbers read"); expectf(close(f, y, 1e-7), k + "/function", [&] { return "the value of point " + std::to_string(i + 1) + " is printed as " + num(f) + ", evaluating it gives " + num(y) + " " + ctx; }); auto g = after(x, "(alpha="); expectf(g.size() == 1 && close(g[0], al[i], 1e-9), k + "/alpha", [&] { return "the multiplier of point " + std::to_string(i + 1) + " is printed as " + str(g) + ", the solution has " + num(al[i]) + " " + ctx; }); } } }
        if (a.name == "lms") { one(out, "Number of steps through data: ", l->getSteps(), k + "/steps", ctx); one(out, "Number of updates: ", l->getCtot(), k + "/updates", ctx); if (v >= 2) vec(out, w, b, k, ctx); } }
}
// a classifier with known mistakes
template <class Base> struct Wrong : Base { std::set<double> wrong; std::vector<size_t> tests; bool train() override { tests.push_back(0); return tests.size() % 3 != 0; } double evaluate(const P& p, bool = false) override { tests.back()++; return wrong.count(p[0]) ? p.Y() + 1 : p.Y(); } std::string getFormulationString() override { return std::is_same_v<Base, mc::DualClassifier<double>> ? "Dual" : "Primal"; } };
static std::vector<V> lists(const std::string& s, const std::string& t) { std::vector<V> r; for (auto& l : lines(s)) { if (l.compare(0, t.size(), t)) continue; V v; for (auto& x : l) if (x == ',' || x == '[' || x == ']') x = ' '; std::istringstream in(l.substr(t.size())); double d; while (in >> d) v.push_back(d); r.push_back(v); } return r; }
template <class B> static void folds(const D& d, int k, int reps, bool strat, unsigned mask, const std::string& key) {
    std::string first; for (int v : {0, 1, 2}) { Wrong<B> s; auto all = pts(d); for (size_t i = 0; i < all.size(); i++) if (mask >> (i % 31) & 1) s.wrong.insert(all[i].x[0]); mltk::validation::ValidationReport r; auto out = printed([&] { r = reps ? mltk::validation::kkfold(D(d.copy()), s, reps, k, strat, 5, v) : mltk::validation::kfold(D(d.copy()), s, k, strat, 5, v); }); transition(); std::string res = num(r.error) + " " + num(r.accuracy) + " " + num(r.precision) + " " + num(r.recall) + " " + std::to_string(r.truePositive) + " " + std::to_string(r.falsePositive); auto ctx = [&] { return "verbosity " + std::to_string(v) + ", " + std::to_string(k) + " folds of " + show(d) + ": " + brief(out); };
        if (!v) { first = res; expectf(out.empty(), key + "/silent", ctx); continue; } expectf(res == first, key + "/changes", [&] { return "the report is " + res + ", without verbosity " + first + " " + ctx(); }); size_t n = k * std::max(1, reps), N = d.size(); auto tr = after(out, "Train points: "), te = after(out, "Test points: "); auto td = lists(out, "Train distribution: "), sd = lists(out, "Test distribution: "); count("reports"); V er, pc; for (auto& l : lines(out)) { int no, at = 0; double a, b; if (std::sscanf(l.c_str(), "Error %d: %lf -- %lf%%%n", &no, &a, &b, &at) == 3 && at == (int)l.size()) { er.push_back(a); pc.push_back(b); } }
        if (!expectf(tr.size() == n && te.size() == n && td.size() == n && sd.size() == n && er.size() == n, key + "/lines", [&] { return "other numbers of lines than of folds, " + ctx(); })) continue; double sum = 0, wrong = 0; for (size_t i = 0; i < n; i++) { double a = 0, b = 0; for (double x : td[i]) a += x; for (double x : sd[i]) b += x; expectf(tr[i] + te[i] == N && a == tr[i] && b == te[i] && s.tests.at(i) == te[i], key + "/sizes", [&] { return "fold " + std::to_string(i) + ": the sizes printed do not fit, " + ctx(); }); expectf(close(pc[i], 100 * er[i] / te[i], 1e-6), key + "/percent", ctx); sum += pc[i]; wrong += er[i]; } double w = 0; for (auto& p : pts(d)) w += s.wrong.count(p.x[0]); expectf(wrong == w * std::max(1, reps), key + "/errors", [&] { return num(wrong) + " errors printed, there are " + num(w) + " " + ctx(); }); expectf(close(sum / n, r.error, 1e-6), key + "/mean", [&] { return "the errors printed average to " + num(sum / n) + ", reported " + num(r.error) + " " + ctx(); });
        if (reps) { auto e = after(out, "Erro " + std::to_string(k) + "-Fold Cross Validation: "); expectf(e.size() == 1 && close(e[0], r.error, 1e-9), key + "/overall", ctx); } }
}
// selections print the features and the model they end with
static std::set<int> fails; static std::map<int, double> wt;
struct Stub : mc::PrimalClassifier<double> { bool train() override { auto f = this->samples->getFeaturesNames(); this->solution.w.X().clear(); for (int i : f) this->solution.w.X().push_back(wt[i]); this->solution.margin = f.size() + 0.25; this->solution.svs = 3 * f.size() + 1; return !fails.count(f.size()); } double evaluate(const P& p, bool = false) override { return p[0] >= 0 ? 1 : -1; } std::string getFormulationString() override { return "Primal"; } };
static std::string whole(const D& d) { return show(pts(d)) + str(d.getFeaturesNames()) + str(d.classes()); }
template <class F> static void selection(const D& d, const std::string& chosen, const std::string& removed, const std::string& key, F build) {
    std::string first; for (int v : {0, 1, 2, 3}) { D r; Stub s; auto out = printed([&] { auto sel = build(s); sel->setVerbose(v); r = sel->selectFeatures(); }); transition(); count("selections"); auto ctx = [&] { return "verbosity " + std::to_string(v) + " on " + show(d) + ": " + brief(out); }; auto res = whole(r); if (!v) first = res; expectf(res == first, key + "/changes", [&] { return "the result is " + res + ", without verbosity " + first + " " + ctx(); }); auto names = r.getFeaturesNames(); double n = names.size(); if (!n) continue;
        if (chosen.size()) { auto c = lists(out, chosen); if (fails.count(d.dim())) continue; expectf(c.size() == 1 && c[0] == V(names.begin(), names.end()), key + "/chosen", [&] { return "features " + str(names) + " are kept, " + ctx(); }); auto e = lists(out, removed); if (fails.empty() && out.find("End of Heap") == std::string::npos) { std::set<double> k(names.begin(), names.end()), g; for (int i : d.getFeaturesNames()) if (!k.count(i)) g.insert(i); std::set<double> h; for (auto& x : e) h.insert(x.begin(), x.end()); expectf(h == g, key + "/removed", [&] { return "features " + str(names) + " are kept, " + ctx(); }); }
            for (auto& x : lines(out)) if (x.compare(0, 5, "Dim: ") == 0) { auto q = after(x, "Dim: "), m = after(x, "Margin: "), m2 = after(x, "Margem: "), sv = after(x, "SVs: "); m.insert(m.end(), m2.begin(), m2.end()); count("numbers read"); expectf(q.size() == 1 && m == V{q[0] + 0.25} && sv == V{3 * q[0] + 1}, key + "/progress", [&] { return "'" + x + "' printed, " + ctx(); }); }
            { auto p = after(out, "Total of projections: "), t = after(out, "Total of trained projections: "), u = after(out, "Total of non-trained projections: "); expectf(p.size() == t.size() && t.size() == u.size() && (p.empty() || (p[0] >= t[0] && u[0] == p[0] - t[0])), key + "/projections", ctx); }
            auto tail = out.substr(out.find(":: FINAL ::")); auto m = after(tail, "Margin: "), m2 = after(tail, "Margem: "), dm = after(tail, "Dim: "), sv = after(tail, "SVs: "); m.insert(m.end(), m2.begin(), m2.end()); expectf(dm == V{n}, key + "/dimension", ctx); expectf(m == V{n + 0.25}, key + "/margin", ctx); expectf(sv == V{3 * n + 1}, key + "/svs", ctx); }
        else { auto m = after(out, "Margin = "), sv = after(out, "Support Vectors = "); V em, es; for (double k = d.dim(); k >= n; k--) if (!fails.count(k)) { em.push_back(k + 0.25); es.push_back(3 * k + 1); } expectf(m == em, key + "/margins", ctx); expectf(sv == es, key + "/svs", ctx); } }
}
void vf::run() {
    // the texts of points and datasets
    V vals{0, -1.5, 1e-9, 12345678.25, 3}; for (int dim = 0; dim <= 3; dim++) kase("text", "dim " + std::to_string(dim), [&] { product(dim, vals.size(), [&](const std::vector<int>& id) { nontrivial(str(id)); D d; d.setType("Classification"); int c = 0; for (double y : {-1e400, 0.0, -1.0, 2.5}) for (int i : {0, 1, 77}) { P p(dim); for (int j = 0; j < dim; j++) p[j] = vals[id[j]]; bool has = y > -1e300; if (has) p.Y() = y; p.Id() = i; auto out = printed([&] { std::cout << p; }); transition(); std::ostringstream e; e.precision(17); if (i) e << i << ":"; e << "["; for (int j = 0; j < dim; j++) e << (j ? ", " : "") << vals[id[j]]; if (has) e << (dim ? ", " : "") << y; e << "]"; expectf(out == e.str(), "text/point", [&] { return "printed as " + out + ", expected " + e.str(); }); if (dim && has && y == (int)y) { p.Id() = ++c; d.insertPoint(p); } }
        if (!dim) return; auto all = printed([&] { std::cout << d; }); std::string e; for (size_t i = 0; i < d.size(); i++) e += printed([&] { std::cout << *d.point(i); }) + "\n"; expectf(all == e, "text/dataset", [&] { return "printed as " + all + ", its points as " + e; }); }); });
    for (int K = 1; K <= 4; K++) kase("matrix", "classes " + std::to_string(K), [&] { std::vector<int> cs{3, -1, 10, 0}; cs.resize(K); std::vector<std::string> ns; for (int c : cs) ns.push_back("k" + std::to_string(c)); for (int pat = 0; pat < 30; pat++) for (bool named : {false, true}) { std::vector<std::vector<size_t>> m(K, std::vector<size_t>(K)); std::vector<std::string> e; for (int i = 0; i < K; i++) e.push_back(named ? ns[i] : std::to_string(cs[i])); auto head = e; for (int i = 0; i < K; i++) { e.push_back(head[i]); for (int j = 0; j < K; j++) { m[i][j] = (pat * 7 + i * 5 + j * 11) % 23; e.push_back(std::to_string(m[i][j])); } } auto out = printed([&] { mltk::utils::printConfusionMatrix(cs, ns, m, named); }); transition(); nontrivial(out); std::vector<std::string> g; std::string t; std::istringstream in(out); while (in >> t) if (t != "|" && t.find_first_not_of('-') != std::string::npos) g.push_back(t); expectf(g == e, "matrix", [&] { return "printed as " + out; }); } });
    kase("report", "fields", [&] { for (int i = 0; i < 200; i++) { mltk::validation::ValidationReport r; r.tp = i; r.tn = i * 3 % 7; r.fp = i * 5 % 11; r.fn = 2 * i + 1; r.precision = i / 7.0; r.recall = 1.0 / (i + 1); r.fscore = i * 0.3; r.accuracy = 100 - i / 3.0; auto out = printed([&] { r.print(); }); transition(); nontrivial(out); std::string c = "of the report"; one(out, "True positives: ", r.tp, "report", c); one(out, "True negatives: ", r.tn, "report", c); one(out, "False positives: ", r.fp, "report", c); one(out, "False negatives: ", r.fn, "report", c); one(out, "Precision: ", r.precision, "report", c); one(out, "Recall: ", r.recall, "report", c); one(out, "F1-score: ", r.fscore, "report", c); one(out, "Accuracy: ", r.accuracy, "report", c); } });
    // learners on all small datasets
    int c = 0; V g{0, 1, 3}; auto as = algos(); for (int dim = 1; dim <= 2; dim++) for (int n = 2; n <= (dim == 1 ? 4 : 3); n++) { std::vector<std::vector<int>> rows; product(dim, 3, [&](const std::vector<int>& v) { rows.push_back(v); }); multisets(n, rows.size(), [&](const std::vector<int>& id) { if (c++ % (thorough() ? 1 : dim == 2 && n == 3 ? 5 : 1)) return; kase("learner", "dim " + std::to_string(dim) + " rows " + str(id), [&] { for (int l = 1; l < (1 << n) - 1; l++) { VV xs(n); V ys; for (int i = 0; i < n; i++) { for (int j = 0; j < dim; j++) xs[i].push_back(g[rows[id[i]][j]]); ys.push_back(l >> i & 1 ? 1 : -1); } bool con = contradictory(xs, ys), sep = separable(xs, ys); D d = make(xs, ys, "BinClassification"); nontrivial(show(d)); for (auto& a : as) if (a.needs == 0 || (a.needs == 1 && !con) || (a.needs == 2 && sep)) learner(a, d, "learner"); } }); }); }
    for (int n = 5; n <= (thorough() ? 40 : 17); n += 3) for (int pat = 0; pat < 3; pat++) kase("patterned", "size " + std::to_string(n) + " pattern " + std::to_string(pat), [&] { VV xs(n); V ys; for (int i = 0; i < n; i++) { double y = i % 2 ? 1 : -1; ys.push_back(y); xs[i] = {std::sin(i * 1.7 + pat) + 1.5 * y, std::cos(i * 2.3) - 0.4 * y * pat, 0.3 * i}; } D d = make(xs, ys, "BinClassification"); nontrivial(show(d)); for (auto& a : as) learner(a, d, "patterned"); });
    // validation
    for (int n = 2; n <= (thorough() ? 12 : 9); n++) for (int pat = 0; pat < 4; pat++) kase("folds", "size " + std::to_string(n) + " pattern " + std::to_string(pat), [&] { D d = patterned(n, pat, 2); nontrivial(show(d)); for (int k = 2; k <= n; k++) for (bool strat : {false, true}) for (unsigned mask : {0u, 1u, 0x2cu, 0x55555555u, ~0u}) { folds<mc::Classifier<double>>(d, k, 0, strat, mask, "kfold"); folds<mc::DualClassifier<double>>(d, k, 0, strat, mask, "kfold-dual"); if (k < 4) { folds<mc::Classifier<double>>(d, k, 2, strat, mask, "kkfold"); folds<mc::DualClassifier<double>>(d, k, 2, strat, mask, "kkfold-dual"); } } });
    for (int dim = 2; dim <= 5; dim++) for (int n = 4; n <= 6; n++) kase("selection", "dim " + std::to_string(dim) + " size " + std::to_string(n), [&] { VV xs(n); V ys; for (int i = 0; i < n; i++) { ys.push_back(i % 2 ? 1 : -1); for (int j = 0; j < dim; j++) xs[i].push_back(3 * std::sin(i * (j + 1) * 1.7 + j * j) + ys[i] * ((j * 7) % 5)); } for (int k = 0; k < 2; k++) { D d = make(xs, ys); std::vector<int> nm; for (int i = 0; i < dim; i++) nm.push_back(k ? 20 - 3 * i : i + 1); d.setFeaturesNames(nm); wt.clear(); for (int i : nm) wt[i] = std::sin(i * 2.3 + n) + 0.1; nontrivial(show(d));
        for (int goal = 1; goal < dim; goal++) for (int f : {0, goal, goal + 1, dim}) { fails = f ? std::set<int>{f} : std::set<int>{}; D src(d.copy()); for (int jump = 1; jump < dim; jump++) selection(d, "Choosen Features: ", "Eliminated Features: ", "rfe", [&](Stub& s) { return std::make_unique<fs::RFE<double>>(src, &s, goal, nullptr, 1, jump); }); selection(d, "", "", "fisher", [&](Stub& s) { return std::make_unique<fs::Fisher<double>>(src, &s, goal); }); selection(d, "", "", "golub", [&](Stub& s) { return std::make_unique<fs::Golub<double>>(src, &s, goal); }); if (n == 4 && k == dim % 2 && f != dim) selection(d, "Chosen Features: ", "---------------\nRemoved Features: ", "aos", [&](Stub& s) { return std::make_unique<fs::AOS<double>>(src, &s, goal, nullptr, 1 + goal % 3); }); } fails.clear(); } });
}
