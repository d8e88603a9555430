// C19: multi class decompositions train one learner per class or pair on the right points and combine their answers.
#include "cls.hpp"
#include "ufjfmltk/Classifier.hpp"
using namespace ds; using namespace vf; using namespace cl;
template <class T> using OverS = mltk::OverSampling<T>;
// What the recorded learner was trained on: the classes (by first feature) of its positive and negative points.
struct Rec { std::multiset<double> pos, neg, other; bool binary = true; };
static std::map<double, int> label; static std::vector<Rec> recs; static std::map<std::pair<int, int>, double> table; static std::string bad; static int dimWanted;
static int cls(const std::multiset<double>& s) { int c = -1000; for (double x : s) if (x > -400) { int l = label.count(x) ? label[x] : -2000; if (c == -1000) c = l; else if (c != l) c = -3000; } return c; }
template <class T> struct Stub : mltk::classifier::PrimalClassifier<T> {
    int pos = -1, neg = -1; Stub() = default; 
    bool train() override { Rec r; auto s = this->samples; for (size_t i = 0; i < s->size(); i++) { auto& p = *(*s)[i]; (p.Y() == 1 ? r.pos : p.Y() == -1 ? r.neg : r.other).insert(p[0]); } recs.push_back(r); pos = cls(r.pos); neg = cls(r.neg);
        D c = s->copy(); auto k = c.classes(); std::sort(k.begin(), k.end()); if (k != std::vector<int>{-1, 1}) bad = "classes " + str(k); invariants(c, "stub/data"); if ((int)s->dim() != dimWanted) bad = "dimension"; return true; }
    double evaluate(const P&, bool raw = false) override { if (!table.count({pos, neg})) throw std::runtime_error(std::to_string(pos) + " " + std::to_string(neg)); double v = table.at({pos, neg}); return raw ? v : v >= 0 ? 1 : -1; }
    std::string getFormulationString() override { return "Primal"; }
};
template <class T> struct Over : OverS<T> { int calls = 0; mltk::Data<T> operator()(mltk::Data<T>& d) override { calls++; D n; auto p = *d[0]; P q = p.X().empty() ? p : p; q[0] = -500 - calls; for (double v : {1.0, -1.0}) { q.Y() = v; d.insertPoint(q); } return n; } };
using OA = mltk::classifier::OneVsAll<double>; using OO = mltk::classifier::OneVsOne<double>;
static void trainingSets(const D& d, bool one, size_t from, int over, const std::string& key) {
    auto cs = d.classes(); std::map<int, std::multiset<double>> by; for (auto& p : pts(d)) by[(int)p.y].insert(p.x[0]); std::multiset<double> all; for (auto& b : by) all.insert(b.second.begin(), b.second.end());
    std::multiset<std::string> want, got; auto enc = [](const std::multiset<double>& a, const std::multiset<double>& b) { return str(a) + "|" + str(b); };
    for (int a : cs) if (one) { for (int b : cs) if (a != b) want.insert(enc(by[a], by[b])); } else { std::multiset<double> r; for (int b : cs) if (b != a) r.insert(by[b].begin(), by[b].end()); want.insert(enc(by[a], r)); }
    for (size_t i = from; i < recs.size(); i++) { auto r = recs[i]; if (over) { size_t n = 0; for (auto* s : {&r.pos, &r.neg}) for (auto it = s->begin(); it != s->end();) if (*it < -400) { it = s->erase(it); n++; } else ++it; expect(n == 2, key + "/oversampling", std::to_string(n) + " of the two artificial points used"); } expect(r.other.empty(), key + "/labels", "a label of the training points is neither 1 nor -1"); got.insert(enc(r.pos, r.neg)); }
    expectf(got == want, key + "/training", [&] { return "learners trained on " + str(got) + ", expected " + str(want); }); expect(bad.empty(), key + "/training", "the training data have wrong " + bad); bad = "";
}
static D labelled(const std::vector<int>& l, const std::vector<int>& cs, int k) { std::vector<int> m; for (int x : l) m.push_back(cs[x]); D d = tagged(m, 2); if (k % 3 == 1) { std::vector<int> r(d.classes()); std::reverse(r.begin(), r.end()); d.setClasses(r); } if (k % 5 == 2) d.shuffle(k + 1); return d; }
static void remember(const D& d) { label.clear(); for (auto& p : pts(d)) label[p.x[0]] = (int)p.y; dimWanted = d.dim(); }
static void stubs(const D& d, const D& e, const std::string& key) {
    auto before = show(d); nontrivial();
    for (int over = 0; over < 2; over++) for (int which = 0; which < 3; which++) { 
        Stub<double> base; base.setVerbose(0); Over<double> ov; remember(d); recs.clear(); D dd(d.copy()); auto* op = over ? &ov : nullptr; std::string k = key + (which ? "/onevsone" : "/onevsall"); std::shared_ptr<mltk::Learner<double>> l;
        if (which == 0) l = std::make_shared<OA>(dd, base, op); else if (which == 1) l = std::make_shared<OO>(dd, base, op); else { base.setSamples(dd); l = std::make_shared<OO>(base, op); }
        auto go = [&](const D& x) { size_t f = recs.size(); remember(x); expect(l->train(), k + "/train", "training fails"); transition(); count("trainings"); trainingSets(x, which, f, over, k); expect(show(*l->getSamples()) == show(x), k + "/data", "training changed the samples: " + show(*l->getSamples())); auto cs = x.classes(); int K = cs.size(); P q = mk({1, 2}, 0);
            if (which == 0) { V vals{-2, -0.5, 0.25, 1}; product(K, K > 3 ? 3 : 4, [&](const std::vector<int>& v) { table.clear(); double best = -1e9; for (int i = 0; i < K; i++) { int ng = K == 2 ? cs[1 - i] : -3000; table[{cs[i], ng}] = vals[v[i]]; best = std::max(best, vals[v[i]]); } double r = l->evaluate(q); count("evaluations"); int at = std::find(cs.begin(), cs.end(), (int)r) - cs.begin(); expectf(at < K && vals[v[at]] == best, k + "/class", [&] { return "class " + num(r) + " for the values " + str(v) + " of the classes " + str(cs); }); }); }
            else { int np = K * (K - 1); long lim = 1L << std::min(np, over ? 6 : 12); for (long m = 0; m < lim; m++) { long bits = np > 12 ? m * 2654435761L % (1L << np) : m; table.clear(); std::map<int, int> votes; int b = 0; for (int i : cs) for (int j : cs) if (i != j) { bool w = bits >> b++ & 1; table[{i, j}] = w ? 1 : -1; votes[w ? i : j]++; } int mx = 0; for (auto& v : votes) mx = std::max(mx, v.second); double r = l->evaluate(q); count("evaluations"); expectf(votes.count((int)r) && votes[(int)r] == mx, k + "/class", [&] { return "class " + num(r) + " with " + std::to_string(votes[(int)r]) + " of at most " + std::to_string(mx) + " votes"; }); } } };
        go(d); go(d); if (which == 0 || !over) { D ee(e.copy()); l->setSamples(ee); go(e); l->setSamples(mltk::make_data<double>(d)); go(d); }
        expect(show(dd) == before && show(d) == before, k + "/data", "the dataset given changed: " + show(dd));
    }
}
// points of K classes around the corners of a circle: every class is linearly separable from the rest
static D circle(int n, int K, int seed) { D d; d.setType("Classification"); for (int i = 0; i < n; i++) { int c = i % K; double a = 2 * M_PI * c / K + 0.3, r = 5 + std::sin(i * 1.3 + seed); d.insertPoint(mk({r * std::cos(a) + 0.4 * std::sin(i * 2.1 + seed), r * std::sin(a) + 0.4 * std::cos(i * 3.7 + seed)}, 3 * c - 2)); } return d; }
template <template <class> class B> static void real(D d, B<double> base, const std::string& key) {
    base.setVerbose(0); base.setMaxTime(1e9); base.setMaxIterations(500); OA a(d, base); OO o(d, base); expect(a.train() && o.train(), key, "training fails"); count("real"); for (auto& p : pts(d)) { double x = a.evaluate(mk(p.x, 0)), y = o.evaluate(mk(p.x, 0)); expectf(x == p.y, key + "/onevsall", [&] { return "class " + num(x) + " for " + show({p}) + " of separable data"; }); expectf(y == p.y, key + "/onevsone", [&] { return "class " + num(y) + " for " + show({p}) + " of separable data"; }); }
    auto be = a.batchEvaluate(d); size_t i = 0; for (auto& p : pts(d)) { expect(be[i] == a.evaluate(mk(p.x, 0)), key + "/batch", "batch evaluation differs"); i++; }
}
void vf::run() {
    std::vector<std::vector<int>> css{{1, 2, 3, 4, 5}, {-1, 1, 0, 2, 7}, {3, -1, 10, 1, -4}}; D e2 = tagged({7, 9, 9, 7, 7}, 2), e3 = tagged({1, -1, 5, 5, -1, 1}, 2), e4 = tagged({4, 3, 2, 1, 1, 2}, 2), e5 = tagged({1, 2, 3, 4, 5}, 2); 
    int k = 0; for (int n = 2; n <= (thorough() ? 7 : 6); n++) for (int K = 2; K <= std::min(n, thorough() ? 5 : 4); K++) product(n, K, [&](const std::vector<int>& l) { std::set<int> s(l.begin(), l.end()); if ((int)s.size() != K) return; if (n > 4 && (k++ % (thorough() ? 7 : 19))) return; kase("stubs", "labels " + str(l) + " of " + std::to_string(K) + " classes", [&] { int t = k + n + l[0]; stubs(labelled(l, css[t % 3], t), K == 2 ? e2 : K == 3 ? e3 : K == 4 ? e4 : e5, "stubs"); }); });
    for (int n = 6; n <= (thorough() ? 60 : 24); n += 3) for (int K = 2; K <= std::min(n, 6); K++) kase("real", "circle of " + std::to_string(n) + " points, " + std::to_string(K) + " classes", [&] { D d = circle(n, K, n + K); nontrivial(); using namespace mltk::classifier;
        real(d, PerceptronPrimal<double>(), "primal"); real(d, PerceptronDual<double>(d, mltk::GAUSSIAN, 0.5), "gaussian"); real(d, PerceptronDual<double>(d, mltk::INNER_PRODUCT), "dual"); real(d, IMAp<double>(), "ima"); real(d, SMO<double>(d, mltk::INNER_PRODUCT, 0, 1), "smo"); real(d, BalancedPerceptron<double>(), "balanced"); });
}
