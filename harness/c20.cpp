// C20: ensembles answer the class their members vote for, weighted as they say.
#include "cls.hpp"
#include "ufjfmltk/Classifier.hpp"
#include "ufjfmltk/Ensemble.hpp"
using namespace ds; using namespace vf; using namespace cl;
namespace en = mltk::ensemble;
// A learner with given answers: row k of the table belongs to the k-th training since the last reset.
static std::vector<std::map<double, double>> table; static int trained; static std::vector<D> seen; static std::vector<size_t> seeds; static bool keep_;
template <class T> struct Stub : mltk::classifier::PrimalClassifier<T> {
    int id = -1; bool fixed = false; Stub() = default; explicit Stub(int i) : id(i), fixed(true) {}
    bool train() override { if (!fixed) id = trained; trained++; if (keep_) { seen.push_back(this->samples->copy()); seeds.push_back(this->seed); } return true; }
    double evaluate(const P& p, bool = false) override { return table.at(id).at(p[0]); }
    std::string getFormulationString() override { return "Primal"; }
};
static std::string votes(const std::map<double, double>& v) { std::string s; for (auto& x : v) s += num(x.first) + ":" + num(x.second) + " "; return s; }
// r must have the largest weight among the classes of the dataset
static void winner(double r, const std::vector<int>& cs, std::map<double, double> v, const std::string& key) { double mx = -1e300; for (int c : cs) mx = std::max(mx, v[c]); count("evaluations"); expectf(std::find(cs.begin(), cs.end(), r) != cs.end() && v[r] >= mx - 1e-9 * (1 + std::abs(mx)), key, [&] { return "class " + num(r) + " for the weights " + votes(v) + "of the classes " + str(cs); }); }
static D classes3(int K, int n, int k = 0) { std::vector<std::vector<int>> css{{1, 2, 3, 4, 5}, {-1, 1, 0, 5, -2}, {7, -3, 2, 1, 12}}; std::vector<int> l; for (int i = 0; i < n; i++) l.push_back(css[k % 3][i % K]); return tagged(l, 2); }
static void voting(int K, int m, int k) {
    D d = classes3(K, K + 1, k); auto cs = d.classes(); std::vector<double> out(cs.begin(), cs.end()); out.push_back(99); P q = mk({1, 1}, 0); keep_ = true; seen.clear(); seeds.clear(); trained = 0;
    auto build = [&](const std::string& t) { switch (m) { case 1: return en::VotingClassifier<double>(d, t, Stub<double>(0)); case 2: return en::VotingClassifier<double>(d, t, Stub<double>(0), Stub<double>(1)); case 3: return en::VotingClassifier<double>(d, t, Stub<double>(0), Stub<double>(1), Stub<double>(2)); case 4: return en::VotingClassifier<double>(d, t, Stub<double>(0), Stub<double>(1), Stub<double>(2), Stub<double>(3)); default: return en::VotingClassifier<double>(d, t, Stub<double>(0), Stub<double>(1), Stub<double>(2), Stub<double>(3), Stub<double>(4)); } };
    auto h = build("hard"), s = build("soft"); h.setSeed(5); s.setSeed(5); expect(h.train() && s.train() && trained == 2 * m, "voting/train", "trained " + std::to_string(trained) + " times"); for (auto& x : seen) expect(show(x) == show(d), "voting/data", "a member is trained on " + show(x)); keep_ = false; expect((int)h.size() == m && (int)(h.end() - h.begin()) == m && (int)h.learners().size() == m, "voting/size", "wrong number of members");
    en::VotingClassifier<double> c; c = s; int w = 0; std::vector<V> ws; product(m, m <= 3 ? 4 : 2, [&](const std::vector<int>& x) { V v; for (int i : x) v.push_back(m <= 3 ? V{0, 0.25, 0.5, 1}[i] : V{0.3, 0.7}[i]); ws.push_back(v); }); for (auto& v : ws) for (size_t i = 0; i < v.size(); i++) v[i] += 0.01 * (i + 1) * (v[i] > 0);
    product(m, K + 1, [&](const std::vector<int>& o) { table.assign(m, {}); std::map<double, double> v; for (int i = 0; i < m; i++) { table[i][1] = out[o[i]]; v[out[o[i]]]++; } winner(h.evaluate(q), cs, v, "voting/hard"); transition(); for (int i = 0; i < m; i++) expect(h[i]->evaluate(q) == out[o[i]], "voting/members", "a member answers another class");
        for (size_t j = 0; j < (m <= 3 ? ws.size() : 4); j++) { auto& x = ws[(j + w++) % ws.size()]; v.clear(); for (int i = 0; i < m; i++) v[out[o[i]]] += x[i]; s.setWeights(x); winner(s.evaluate(q), cs, v, "voting/soft"); expect(s.getWeights().X() == x, "voting/weights", "other weights reported"); if (w % 7 == 0) { c.setWeights(x); winner(c.evaluate(q), cs, v, "voting/assigned"); c.setVotingType("hard"); v.clear(); for (int i = 0; i < m; i++) v[out[o[i]]]++; winner(c.evaluate(q), cs, v, "voting/retyped"); c.setVotingType("soft"); } } });
}
// AdaBoost (SAMME): the answers of the members on the samples decide their weights
static void boost(D d, int m, const std::vector<std::vector<double>>& pred, en::AdaBoostClassifier<double>& ada, const std::string& key, int qlim) {
    auto cs = d.classes(); auto p = pts(d); size_t n = p.size(); int K = cs.size(); table.assign(m, {}); for (int i = 0; i < m; i++) for (size_t j = 0; j < n; j++) table[i][p[j].x[0]] = pred[i][j];
    trained = 0; expect(ada.train(), key, "training fails"); expect(trained == m, key + "/members", "trained " + std::to_string(trained) + " members"); V w(n, 1.0 / n), al; std::vector<double> errs;
    for (int i = 0; i < m; i++) { double e = 0, t = 0; for (size_t j = 0; j < n; j++) { t += w[j]; if (pred[i][j] != p[j].y) e += w[j]; } e = std::min(std::max(e / t, 1e-10), 1 - 1e-10); double a = std::log((1 - e) / e) + std::log(K - 1.0); al.push_back(a); errs.push_back(e); for (size_t j = 0; j < n; j++) if (pred[i][j] != p[j].y) w[j] *= std::exp(a); t = 0; for (double x : w) t += x; for (double& x : w) x /= t; }
    std::vector<double> out(cs.begin(), cs.end()); out.push_back(99); auto judge = [&](const std::vector<double>& o, double r) { std::map<double, double> v; for (int i = 0; i < m; i++) v[o[i]] += al[i]; double mx = -1e300; for (int c : cs) mx = std::max(mx, v[c]); count("evaluations"); expectf(std::find(cs.begin(), cs.end(), r) != cs.end() && v[r] >= mx - 1e-6 * (1 + std::abs(mx)), key + "/class", [&] { return "class " + num(r) + " for the weights " + votes(v) + "(members " + str(al) + ")"; }); };
    for (auto& x : p) { std::vector<double> o; for (int i = 0; i < m; i++) o.push_back(table[i][x.x[0]]); judge(o, ada.evaluate(mk(x.x, 0))); }
    int c = 0; product(m, K + 1, [&](const std::vector<int>& o) { if (c++ % qlim) return; std::vector<double> v; for (int i = 0; i < m; i++) { table[i][-7] = out[o[i]]; v.push_back(out[o[i]]); } judge(v, ada.evaluate(mk({-7, 1}, 0))); }); transition();
}
static void adaboost(int K, int n, int m, int k) { D d = classes3(K, n, k); auto cs = d.classes(); keep_ = false; D e = classes3(K == 2 ? 3 : 2, 4, k + 1); Stub<double> st; en::AdaBoostClassifier<double> ada(d, st, m); int step = 0; long tot = std::llround(std::pow(K, n * m)), inc = std::max(1L, tot / (thorough() ? 20000 : 1500));
    for (long at = 0; at < tot; at += inc, step++) { std::vector<int> o; long r = at; for (int i = 0; i < n * m; i++) { o.push_back(r % K); r /= K; } std::vector<std::vector<double>> pr(m); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) pr[i].push_back(cs[o[i * n + j]]); boost(d, m, pr, ada, "adaboost", tot > 1000 ? 5 : 1); if (step % 200 == 0) { ada.setSamples(mltk::make_data<double>(e)); std::vector<std::vector<double>> pe(m); auto ce = e.classes(); for (int i = 0; i < m; i++) for (int j = 0; j < 4; j++) pe[i].push_back(ce[(o[i * n + j % n] + j * step) % ce.size()]); boost(e, m, pe, ada, "adaboost/other", 3); ada.setSamples(mltk::make_data<double>(d)); boost(d, m, pr, ada, "adaboost/back", 3); } }
}
static void bagging(const D& d, int m, size_t seed, const std::string& key) {
    auto cs = d.classes(); std::map<double, RP> src; for (auto& p : pts(d)) src[p.x[0]] = p; Stub<double> st; en::BaggingClassifier<double> b(d, st, m, seed); std::string first;
    for (int rep = 0; rep < 2; rep++) { keep_ = true; seen.clear(); seeds.clear(); trained = 0; expect(b.train() && trained == m, key + "/train", "trained " + std::to_string(trained) + " members"); transition(); keep_ = false; std::set<std::string> distinct; std::string all; std::map<double, double> per; for (auto& c : cs) per[c] = 0; for (auto& p : pts(d)) per[p.y]++;
        for (auto& s : seen) { distinct.insert(show(s)); all += show(s); std::map<double, double> got; for (auto& p : pts(s)) { got[p.y]++; auto it = src.find(p.x[0]); expectf(it != src.end() && it->second.x == p.x && it->second.y == p.y, key + "/foreign", [&] { return "a member is trained on a point which is not in the dataset: " + show({p}); }); } invariants(s, key + "/data"); size_t want = d.size() / m; for (auto& g : per) { double share = g.second * want / d.size(); expectf(g.second == 0 ? got[g.first] == 0 : got[g.first] >= std::max(1.0, std::floor(share)) && got[g.first] <= std::max(1.0, std::ceil(share)), key + "/size", [&] { return std::to_string(m) + " members of " + std::to_string(d.size()) + " points: class " + num(g.first) + " with " + num(g.second) + " points has " + num(got[g.first]) + " in a sample"; }); } }
        if (m > 1 && d.size() / m >= 6 && cs.size() == 2) expect(distinct.size() > 1, key + "/same", "all members are trained on the same sample"); if (rep && seed) expect(all == first, key + "/seed", "the same seed gives other samples"); if (rep && !seed && d.size() / m >= 6 && m > 1) expect(all != first, key + "/entropy", "training again without a seed gives the same samples"); first = all; }
    for (int j = 0; j < 60; j++) { table.assign(4 * m + 8, {}); std::map<double, double> v; P q = mk({-7, 1}, 0); for (size_t i = 0; i < table.size(); i++) { int x = (i * (j + 3) + i * i * (j % 5) + j) % (cs.size() + 1); table[i][-7] = x < (int)cs.size() ? cs[x] : 99; } int i = 0; for (auto l : b) { v[l->evaluate(q)]++; i++; } expect(i == m, key + "/members", "wrong number of members"); winner(b.evaluate(q), cs, v, key + "/class"); }
}
static void committee(const D& d, int m, bool sep, const std::string& key) { en::PerceptronCommittee<double> c(d, m); c.setVerbose(0); auto before = show(d); for (int rep = 0; rep < 2; rep++) { expect(c.train() && (int)c.size() == m, key, "wrong number of members"); transition(); for (auto& x : queries(d)) { std::map<double, double> v; P q = mk(x, 0); for (auto l : c) v[l->evaluate(q)]++; winner(c.evaluate(q), d.classes(), v, key + "/class"); } auto b = c.batchEvaluate(d); size_t i = 0; for (auto& p : pts(d)) { expect(b[i] == c.evaluate(mk(p.x, 0)), key + "/batch", "batch evaluation differs"); i++; if (sep) expectf(c.evaluate(mk(p.x, 0)) == p.y, key + "/separates", [&] { return "separable data, but " + show({p}) + " is classified wrong on " + show(d); }); } expect(show(d) == before, key + "/data", "the dataset changed"); } }
void vf::run() {
    for (int m = 1; m <= 5; m++) for (int K = 1; K <= 4; K++) for (int k = 0; k < 3; k++) kase("voting", std::to_string(m) + " members, " + std::to_string(K) + " classes " + std::to_string(k), [&] { nontrivial(); voting(K, m, k); });
    for (int K = 2; K <= 5; K++) for (int n = K; n <= (thorough() && K < 4 ? 6 : 5); n++) for (int m = 1; m <= (thorough() && K < 4 ? 5 : 4); m++) for (int k = 0; k < 3; k++) kase("adaboost", std::to_string(m) + " members, " + std::to_string(n) + " points, " + std::to_string(K) + " classes " + std::to_string(k), [&] { nontrivial(); adaboost(K, n, m, k); });
    for (int n = 1; n <= (thorough() ? 60 : 30); n += n < 8 ? 1 : 3) for (int pat = 0; pat < 6; pat++) for (size_t seed : {0, 1, 42}) kase("bagging", "size " + std::to_string(n) + " pattern " + std::to_string(pat) + " seed " + std::to_string(seed), [&] { nontrivial(); D d = patterned(n, pat); if (pat % 2) d.shuffle(n); for (int m : {1, 2, 3, 4, 5, 10}) if (m <= n) bagging(d, m, seed, "bagging"); });
    for (int n = 2; n <= (thorough() ? 40 : 20); n++) for (int dim = 1; dim <= 3; dim++) for (int pat = 0; pat < 3; pat++) kase("committee", "size " + std::to_string(n) + " dim " + std::to_string(dim) + " pattern " + std::to_string(pat), [&] { VV xs; V ys; for (int i = 0; i < n; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(2 * std::sin(i * (j + 1) * 1.7 + j * j + pat)); int y = pat == 2 ? (i % 2 ? 1 : -1) : x[0] + 0.3 * pat > 0 ? 1 : -1; if (pat < 2) x[0] += y; xs.push_back(x); ys.push_back(y); } nontrivial(); D d = make(xs, ys); if (d.classes().size() < 2) return; for (int m : {1, 2, 5}) committee(d, m, pat < 2, "committee"); });
}
