// C31: what a trained model answers for a point depends on nothing but the point; asking changes nothing.
#include "cls.hpp"
#include "ufjfmltk/Classifier.hpp"
#include "ufjfmltk/Ensemble.hpp"
#include "ufjfmltk/Clusterer.hpp"
#include "ufjfmltk/Regressor.hpp"
using namespace ds; using namespace vf; using namespace cl; namespace mc = mltk::classifier; namespace me = mltk::ensemble; namespace mr = mltk::regressor;
using L = mltk::Learner<double>; using LP = std::shared_ptr<L>; using Maker = std::function<LP(D&)>;
template <class T> static std::shared_ptr<T> quiet(T* t, int it = 40) { t->setVerbose(0); t->setMaxTime(1e9); t->setMaxIterations(it); t->setMaxUpdates(1000); t->setMaxEpochs(it); t->setSeed(7); return std::shared_ptr<T>(t); }
static std::vector<std::pair<std::string, Maker>> makers(int K) {
    std::vector<std::pair<std::string, Maker>> m; auto add = [&](std::string n, Maker f) { m.push_back({n, f}); };
    for (int k : {1, 2, 3}) add("knn" + std::to_string(k), [k](D& d) -> LP { return quiet(new mc::KNNClassifier<double>(d, k)); });
    add("knnreg", [](D& d) -> LP { return quiet(new mr::KNNRegressor<double>(d, 2)); });
    add("lms", [](D& d) -> LP { return quiet(new mr::LMSPrimal<double>(d, 0.05)); });
    add("kmeans", [](D& d) -> LP { return quiet(new mltk::clusterer::KMeans<double>(d, 2, "kmeanspp", 7, 0)); });
    add("onevsall", [](D& d) -> LP { mc::PerceptronPrimal<double> b; b.setVerbose(0); b.setMaxIterations(40); return quiet(new mc::OneVsAll<double>(d, b)); });
    add("onevsone", [](D& d) -> LP { mc::PerceptronDual<double> b(d, mltk::GAUSSIAN, 0.7); b.setVerbose(0); b.setMaxIterations(40); return quiet(new mc::OneVsOne<double>(d, b)); });
    for (std::string t : {"hard", "soft"}) add("voting-" + t, [t](D& d) -> LP { auto v = quiet(new me::VotingClassifier<double>(d, t, mc::KNNClassifier<double>(1), mc::KNNClassifier<double>(2), mc::KNNClassifier<double>(3))); if (t == "soft") v->setWeights(V{0.2, 0.5, 0.4}); return v; });
    add("bagging", [](D& d) -> LP { mc::KNNClassifier<double> b(1); return quiet(new me::BaggingClassifier<double>(d, b, 3, 7)); });
    if (K > 2) return m;
    add("perceptron", [](D& d) -> LP { return quiet(new mc::PerceptronPrimal<double>(d)); });
    add("perceptron-dual", [](D& d) -> LP { return quiet(new mc::PerceptronDual<double>(d, mltk::GAUSSIAN, 0.6)); });
    add("fixed-margin", [](D& d) -> LP { return quiet(new mc::PerceptronFixedMarginPrimal<double>(d, 0.1)); });
    add("fixed-margin-dual", [](D& d) -> LP { return quiet(new mc::PerceptronFixedMarginDual<double>(d, mltk::INNER_PRODUCT, 0, 0.1)); });
    add("balanced", [](D& d) -> LP { return quiet(new mc::BalancedPerceptron<double>(d, 7)); });
    add("ima", [](D& d) -> LP { return quiet(new mc::IMAp<double>(d)); });
    add("ima-dual", [](D& d) -> LP { return quiet(new mc::IMADual<double>(d, mltk::GAUSSIAN, 0.6)); });
    add("smo", [](D& d) -> LP { return quiet(new mc::SMO<double>(d, mltk::GAUSSIAN, 0.6, 1)); });
    add("adaboost", [](D& d) -> LP { mc::BalancedPerceptron<double> b; b.setVerbose(0); b.setMaxEpochs(3); return quiet(new me::AdaBoostClassifier<double>(d, b, 2)); });
    add("committee", [](D& d) -> LP { return quiet(new me::PerceptronCommittee<double>(d, 3)); });
    return m;
}
static std::string sol(L& l) { auto f = [](auto* c) -> std::string { if (!c) return ""; auto s = c->getSolution(); return str(V(s.w.begin(), s.w.end())) + num(s.bias) + str(s.alpha) + num(s.margin) + num(s.norm); }; return f(dynamic_cast<mc::Classifier<double>*>(&l)) + f(dynamic_cast<mr::Regressor<double>*>(&l)); }
static void purity(const D& src, const D& other, int K, const std::string& key) {
    VV q; for (auto& p : pts(src)) if (q.size() < 2) q.push_back(p.x); V x = q[0]; for (size_t j = 0; j < x.size(); j++) x[j] = 1.3 * x[j] + 0.4 - 0.3 * j; q.push_back(x); q.push_back(V(x.size(), 5)); D batch = other.size() && other.dim() == src.dim() ? other.copy() : src.copy(); int ids = src.size() + src.dim() + (int)std::lround(src.point(0)->Y()); for (size_t i = 0; i < batch.size() && ids % 3; i++) batch.point(i)->Id() = ids % 3 == 1 ? 4 : (int)i / 2;
    for (auto& mk1 : makers(K)) { auto& name = mk1.first; auto k = key + "/" + name; auto trained = [&](D& d) { LP l = mk1.second(d); l->train(); return l; };
        // the answers of models which are asked nothing else (the members of a committee have no seed: those of the model itself)
        bool seeded = name != "committee"; D d(src.copy()); LP l = trained(d); auto before = show(d), mine = show(*l->getSamples()), s0 = sol(*l), b0 = show(batch); std::string hist;
        std::vector<double> a, r, pr; if (!seeded) for (auto& v : q) { a.push_back(l->evaluate(mk(v, 0))); pr.push_back(l->getPredictionProbability()); r.push_back(l->evaluate(mk(v, 0), true)); } else for (auto& v : q) { D d(src.copy()); a.push_back(trained(d)->evaluate(mk(v, 0))); D e(src.copy()); r.push_back(trained(e)->evaluate(mk(v, 0), true)); D f(src.copy()); auto l = trained(f); l->evaluate(mk(v, 0)); pr.push_back(l->getPredictionProbability()); }
        std::vector<double> ab; { for (auto& p : pts(batch)) { D d(src.copy()); ab.push_back((seeded ? trained(d) : l)->evaluate(mk(p.x, 0))); } }
        auto op = [&](int o) { transition(); if (o < 8) { auto& v = q[o / 2]; P p = mk(v, 3); p.Id() = o; double g = l->evaluate(p, o % 2), w = o % 2 ? r[o / 2] : a[o / 2]; hist += (o % 2 ? " raw" : " class") + str(v); expectf(g == w || (std::isnan(g) && std::isnan(w)), k + "/answer", [&] { return "answer " + num(g) + " after" + hist + ", a model asked nothing before answers " + num(w) + " trained on " + show(src); }); expect(V(p.begin(), p.end()) == v && p.Y() == 3 && (int)p.Id() == o, k + "/point", "the point asked for is changed"); if (o % 2 == 0) expectf(l->getPredictionProbability() == pr[o / 2], k + "/probability", [&] { return "probability " + num(l->getPredictionProbability()) + " after" + hist + ", expected " + num(pr[o / 2]); }); }
            else { auto g = l->batchEvaluate(batch); hist += " batch"; expectf(V(g.begin(), g.end()) == ab, k + "/batch", [&] { return "batch " + str(V(g.begin(), g.end())) + " after" + hist + ", single models answer " + str(ab); }); } };
        int n = 0; product(thorough() ? 4 : 3, 9, [&](const std::vector<int>& o) { if (n++ % (thorough() ? 31 : 3)) return; for (int i : o) op(i); if (hist.size() > 200) hist = " ..." + hist.substr(hist.size() - 100); });
        expectf(show(d) == before && show(*l->getSamples()) == mine && show(batch) == b0, k + "/data", [&] { return "asking changes the data from " + before + " / " + mine + " to " + show(d) + " / " + show(*l->getSamples()); }); expect(sol(*l) == s0, k + "/solution", "asking changes the solution from " + s0 + " to " + sol(*l)); state(name + before); }
}
void vf::run() {
    auto grid = [](int i) { return V{i % 3 - 1.0, i / 3 - 1.0}; }; D o = make({{0.5, 0.2}, {-1, 2}, {3, 0}}, {1, -1, 1});
    int c = 0; for (int n = 2; n <= (thorough() ? 5 : 4); n++) multisets(n, 9, [&](const std::vector<int>& id) { for (int i = 0; i + 1 < n; i++) if (id[i] == id[i + 1] && n > 3) return; for (int lab = 1; lab < (1 << n) - 1; lab++) { if (c++ % (thorough() ? 5 : n == 2 ? 5 : n == 3 ? 23 : 61)) continue; kase("grid", "grid " + str(id) + " labels " + std::to_string(lab), [&] { VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back(grid(id[i])); ys.push_back(lab >> i & 1 ? 1 : -1); } if (lab % 2) { std::reverse(xs.begin(), xs.end()); std::reverse(ys.begin(), ys.end()); } nontrivial(); purity(make(xs, ys), o, 2, "binary"); }); } });
    for (int n = 3; n <= (thorough() ? 6 : 5); n++) product(n, 3, [&](const std::vector<int>& l) { std::set<int> s(l.begin(), l.end()); if (s.size() < 3 || c++ % (thorough() ? 3 : 11)) return; kase("multi", "labels " + str(l), [&] { VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back(grid((i * 4 + l[0]) % 9)); ys.push_back(2 * l[i] - 1); } nontrivial(); purity(make(xs, ys), o, 3, "multi"); }); });
    for (int n = 8; n <= (thorough() ? 60 : 24); n += 8) for (int dim = 1; dim <= 3; dim++) for (int K = 2; K <= 3; K++) kase("size", "size " + std::to_string(n) + " dim " + std::to_string(dim) + " classes " + std::to_string(K), [&] { VV xs; V ys; for (int i = 0; i < n; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(2 * std::sin(i * (j + 1) * 1.7 + j * j) + i % K); xs.push_back(x); ys.push_back(K == 2 ? 2 * (i % 2) - 1 : i % K); } nontrivial(); purity(make(xs, ys), D(), K, "size"); });
}
