// C17: perceptrons separate separable data, and their answers are those of the reported solution.
#include "cls.hpp"
using namespace ds; using namespace vf; using namespace cl;
using PP = mltk::classifier::PerceptronPrimal<double>; using FP = mltk::classifier::PerceptronFixedMarginPrimal<double>; using BP = mltk::classifier::BalancedPerceptron<double>; using PD = mltk::classifier::PerceptronDual<double>; using FD = mltk::classifier::PerceptronFixedMarginDual<double>; using IF = mltk::classifier::IMApFixedMargin<double>;
struct Spec { bool dual = false; int type = 0; double param = 0, gamma = 0, q = 2; bool norm = true, flip = false; };
template <class L> static void limits(L& l) { l.setMaxTime(1e9); l.setVerbose(0); }
// train l on d and judge the outcome; sep: the data are separable for this learner and must be separated (-1 unknown, 0 impossible)
template <class L> static void once(L& l, const D& d, const Spec& s, int sep, const std::string& key, bool normOK = true) {
    l.setSteps(0); l.setCtot(0); int lim = sep == 1 ? 200000 : 60; l.setMaxIterations(lim); l.setMaxEpochs(lim); auto before = strip(d); bool r = l.train(); transition(); count("trainings");
    expectf(r || sep != 1, key + "/converges", [&] { return "separable data are not separated: " + show(d); }); expectf(!r || sep != 0, key + "/converges", [&] { return "training succeeds on data which cannot be separated: " + show(d); });
    expectf(l.getSteps() <= lim + 1, key + "/limit", [&] { return std::to_string(l.getSteps()) + " passes for a limit of " + std::to_string(lim); });
    auto f = [&]() -> std::function<double(const V&)> { if (s.dual) return dual(l, d, s.type, s.param); return linear(l); }(); auto sol = l.getSolution(); V w(sol.w.begin(), sol.w.end()); auto data = pts(d);
    double nrm = s.dual ? knorm(sol.alpha, d, s.type, s.param) : s.q == -1 ? [&] { double t = 0; for (double x : w) t = std::max(t, std::abs(x)); return t; }() : s.q == 1 ? [&] { double t = 0; for (double x : w) t += std::abs(x); return t; }() : [&] { double t = 0; for (double x : w) t += std::pow(std::abs(x), s.q); return std::pow(t, 1 / s.q); }();
    if (r) for (auto& p : data) { double m = p.y * f(p.x); expectf(m > s.gamma * nrm - 1e-7 * (1 + nrm) && (s.gamma > 0 || m > -1e-9), key + "/separates", [&] { return "training succeeded, but y*f = " + num(m) + " for " + show({p}) + " (margin " + num(s.gamma * nrm) + ") on " + show(d); }); double c = l.evaluate(mk(p.x, 0), false); expectf(std::abs(m) < 1e-9 || c == p.y, key + "/separates", [&] { return "training succeeded, but " + show({p}) + " is in class " + num(c) + " on " + show(d); }); }
    if (s.norm && normOK) expectf(close(nrm * nrm, sol.norm * sol.norm, 1e-6), key + "/norm", [&] { return "reported norm " + num(sol.norm) + " is not that of the weights " + num(nrm) + " on " + show(d); });
    consistent(l, d, f, key); if (s.dual && s.type == 0) { auto g = linear(l); for (auto& q : queries(d)) expectf(close(g(q), f(q), 1e-7), key + "/w", [&] { return "the weights give " + num(g(q)) + " at " + str(q) + ", the alphas " + num(f(q)) + " on " + show(d); }); }
    expectf(strip(d) == before, key + "/data", [&] { return "training changed the samples " + before + " to " + strip(d); });
}
// life of a learner: train, train again, other samples (by copy, by pointer), a copy of the learner
template <class L, class Mk> static void life(Mk mk_, const D& d, const D& e, const Spec& s, int sep, int sepe, const std::string& key) {
    { auto l = mk_(d); limits(l); once(l, *l.getSamples(), s, sep, key + "/train"); once(l, *l.getSamples(), s, sep, key + "/again"); l.setSamples(e); once(l, *l.getSamples(), s, sepe, key + "/other", false); l.setSamples(d); once(l, *l.getSamples(), s, sep, key + "/back", false); }
    if (sep != 0) { auto l = mk_(d); limits(l); l.setMaxIterations(sep == 1 ? 200000 : 60); l.setMaxEpochs(sep == 1 ? 200000 : 60); l.train(); auto f = [&](const V& x) { return l.evaluate(mk(x, 0), true); }; VV q = queries(*l.getSamples()); V a; for (auto& x : q) a.push_back(f(x)); L c(l); c.setSamples(e); once(c, *c.getSamples(), s, sepe, key + "/copy", false); for (size_t i = 0; i < q.size(); i++) expectf(f(q[i]) == a[i], key + "/copy-original", [&] { return "training a copy changes the answer of the original at " + str(q[i]); }); once(l, *l.getSamples(), s, sep, key + "/copy-original"); }
    { auto l = mk_(d); limits(l); l.setMaxIterations(100); l.setMaxEpochs(100); l.train(); auto p = mltk::make_data<double>(e); bool stale = s.dual && e.size() == d.size(); l.setSamples(p); if constexpr (std::is_base_of_v<mltk::classifier::DualClassifier<double>, L>) if (stale) l.recomputeKernel(); once(l, *p, s, sepe, key + "/pointer", false); }
}
static void all(const VV& xs, const V& ys, const VV& xe, const V& ye, int sep, int sepe, bool deep) {
    D d = make(xs, ys), e = make(xe, ye); d.setClasses({-1, 1}); e.setClasses({-1, 1}); nontrivial(); bool con = contradictory(xs, ys), cone = contradictory(xe, ye); int g = con ? 0 : 1, ge = cone ? 0 : 1, u = con ? 0 : -1, ue = cone ? 0 : -1;
    life<PP>([](const D& x) { return PP(x); }, d, e, {}, sep, sepe, "primal"); life<PP>([](const D& x) { return PP(x, 2, 1.0); }, d, e, {}, sep, sepe, "primal");
    life<FP>([](const D& x) { return FP(x); }, d, e, {}, sep, sepe, "fixed"); Spec m; m.gamma = 0.05; life<FP>([](const D& x) { return FP(x, 0.05, 2, 0.5); }, d, e, m, sep ? -1 : 0, sepe ? -1 : 0, "fixed-margin");
    life<BP>([](const D& x) { return BP(x, 7); }, d, e, {false, 0, 0, 0, 2, false}, sep, sepe, "balanced");
    life<PD>([](const D& x) { return PD(x, mltk::INNER_PRODUCT, 0, 0.5); }, d, e, {true, 0, 0}, sep, sepe, "dual"); life<PD>([](const D& x) { return PD(x, mltk::GAUSSIAN, 0.8, 1.0); }, d, e, {true, mltk::GAUSSIAN, 0.8}, g, ge, "dual");
    life<FD>([](const D& x) { return FD(x, mltk::INNER_PRODUCT); }, d, e, {true, 0, 0}, sep, sepe, "fixed-dual"); life<FD>([](const D& x) { return FD(x, mltk::GAUSSIAN, 0.8, 0.02); }, d, e, {true, mltk::GAUSSIAN, 0.8, 0.02}, u, ue, "fixed-dual");
    if (!deep) return;
    for (double q : {1.0, 3.0, -1.0}) { Spec t; t.q = q; life<FP>([q](const D& x) { return FP(x, 0, q); }, d, e, t, sep, sepe, "fixed"); t.gamma = 0.03; life<FP>([q](const D& x) { return FP(x, 0.03, q); }, d, e, t, sep ? -1 : 0, sepe ? -1 : 0, "fixed-margin"); }
    life<PD>([](const D& x) { return PD(x, 0.5); }, d, e, {true, 0, 0}, sep, sepe, "dual-default"); life<PD>([](const D& x) { PD l; l.setSamples(x); l.setKernelType(mltk::GAUSSIAN); l.setKernelParam(0.8); return l; }, d, e, {true, mltk::GAUSSIAN, 0.8}, g, ge, "dual-default"); life<PD>([](const D& x) { return PD(x, mltk::POLYNOMIAL, 2); }, d, e, {true, mltk::POLYNOMIAL, 2}, u, ue, "dual");
    life<FD>([](const D& x) { FD l; l.setSamples(x); return l; }, d, e, {true, 0, 0}, sep, sepe, "fixed-dual-default"); life<IF>([](const D& x) { return IF(x, 0); }, d, e, {}, sep, sepe, "ima-fixed"); life<IF>([](const D& x) { IF l; l.setSamples(x); l.setGamma(0.05); return l; }, d, e, m, sep ? -1 : 0, sepe ? -1 : 0, "ima-fixed");
}
void vf::run() {
    // a second dataset of another size and dimension, one of the same size, one which is not separable
    VV e1 = {{1, 0, 2}, {-1, 0, 1}, {0, 2, -1}}; V y1 = {1, -1, 1}; VV e2 = {{3, 1}, {0, -2}, {-1, 1}, {2, 2}}; V y2 = {-1, 1, -1, 1}; VV e3 = {{0}, {1}, {2}, {3}, {4}}; V y3 = {1, -1, 1, -1, 1};
    auto go = [&](const VV& xs, const V& ys, const std::string& desc, int k, bool deep) { kase("perceptron", desc, [&] { int sep = separable(xs, ys) ? 1 : 0; switch (k % 3) { case 0: all(xs, ys, e1, y1, sep, 1, deep); break; case 1: all(xs, ys, e2, y2, sep, separable(e2, y2), deep); break; default: all(xs, ys, e3, y3, sep, 0, deep); } }); };
    int k = 0; for (int n = 1; n <= (thorough() ? 5 : 4); n++) product(n, 5, [&](const std::vector<int>& id) { if (!thorough() && n == 4 && k++ % 6) return; for (int l = 0; l < 1 << n; l++) { VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({id[i] - 2.0}); ys.push_back(l >> i & 1 ? 1 : -1); } if (n >= 4 && (l & 1)) continue; go(xs, ys, "line " + str(id) + " labels " + std::to_string(l), l + n + id[0], n <= 3); } });
    for (int n = 2; n <= (thorough() ? 5 : 4); n++) multisets(n, 9, [&](const std::vector<int>& id) { for (int i = 0; i + 1 < n; i++) if (id[i] == id[i + 1]) return; for (int l = 0; l < 1 << n; l++) { if (!thorough() && n == 4 && (l + id[0] + id[1]) % 3) continue; VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({id[i] % 3 - 0.0, id[i] / 3 - 1.0}); ys.push_back(l >> i & 1 ? 1 : -1); } if (l % 2) { std::reverse(xs.begin(), xs.end()); std::reverse(ys.begin(), ys.end()); } go(xs, ys, "grid " + str(id) + " labels " + std::to_string(l), l + n, n <= 3); } });
    for (int n = 2; n <= 4; n++) multisets(n, 8, [&](const std::vector<int>& id) { for (int i = 0; i + 1 < n; i++) if (id[i] == id[i + 1]) return; for (int l = 1; l < (1 << n) - 1; l++) { if (!thorough() && n == 4 && (l + id[0]) % 4) continue; VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({id[i] & 1 ? 2.0 : -1.0, id[i] & 2 ? 1.0 : 0.0, id[i] & 4 ? 1.0 : -1.0}); ys.push_back(l >> i & 1 ? 1 : -1); } go(xs, ys, "cube " + str(id) + " labels " + std::to_string(l), l, n <= 3); } });
    for (int n = 6; n <= (thorough() ? 60 : 30); n += thorough() ? 1 : 3) for (int dim = 1; dim <= 5; dim++) for (int pat = 0; pat < 3; pat++) kase("perceptron", "size " + std::to_string(n) + " dim " + std::to_string(dim) + " pattern " + std::to_string(pat), [&] { VV xs; V ys; for (int i = 0; i < n; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(2 * std::sin(i * (j + 1) * 1.7 + j * j + pat)); double f = pat - 1; for (int j = 0; j < dim; j++) f += x[j] * (j % 2 ? -1 : 1.5); int y = f >= 0 ? 1 : -1; for (int j = 0; j < dim; j++) x[j] += 0.4 * y * (j % 2 ? -1 : 1.5); xs.push_back(x); ys.push_back(y); } all(xs, ys, n % 2 ? e1 : e3, n % 2 ? y1 : y3, 1, n % 2, dim == 2); });
    kase("time", "no time to train", [&] { D d = make({{0, 1}, {2, 0}}, {-1, 1}); auto t = [](auto l, const char* n) { l.setVerbose(0); l.setMaxTime(-1); expect(!l.train(), std::string("time/") + n, "training succeeds without any pass through the data"); }; t(PP(d), "primal"); t(FP(d), "fixed"); t(PD(d, mltk::INNER_PRODUCT), "dual"); t(FD(d), "fixed-dual"); t(IF(d), "ima-fixed"); });
    // the kernel matrix of a dual classifier is kept for another dataset of the same size given by pointer
    kase("pointer-same-size", "dual, another dataset of the same size by pointer", [&] { D a = make({{0, 0}, {0, 0}}, {1, 1}), b = make({{3, 0}, {0, 2}}, {1, -1}); PD l(a, mltk::INNER_PRODUCT); limits(l); l.train(); auto p = mltk::make_data<double>(b); l.setSamples(p); l.setMaxIterations(2000); bool r = l.train(); expect(r && l.evaluate(mk({3, 0}, 0)) == 1 && l.evaluate(mk({0, 2}, 0)) == -1, "pointer-same-size", "after setSamples with a pointer to other samples of the same size, training uses the kernel matrix of the old ones"); });
}
