// C38: a learner which starts from a given solution ends with one as good as a learner which starts from nothing.
#include "cls.hpp"
using namespace ds; using namespace vf; using namespace cl;
using So = mltk::Solution; using PP = mltk::classifier::PerceptronPrimal<double>; using FP = mltk::classifier::PerceptronFixedMarginPrimal<double>; using PD = mltk::classifier::PerceptronDual<double>; using FD = mltk::classifier::PerceptronFixedMarginDual<double>; using IF = mltk::classifier::IMApFixedMargin<double>; using IM = mltk::classifier::IMAp<double>; using ID = mltk::classifier::IMADual<double>;
static double qnorm(const V& w, double q) { double t = 0; for (double x : w) t = q == -1 ? std::max(t, std::abs(x)) : q == 1 ? t + std::abs(x) : t + std::pow(std::abs(x), q); return q == -1 || q == 1 ? t : std::pow(t, 1 / q); }
static V wv(const So& s) { return V(s.w.begin(), s.w.end()); }
struct K { int type = -1; double param = 0, gamma = 0, q = 2; bool normed = true, index = false; };
template <class L> static void run(L& l, const V& w0, double b0, const K& k, int sep, const std::string& key, bool ima = false, int cap = 0) {
    const D& d = *l.getSamples(); l.setVerbose(0); l.setMaxTime(1e9); int lim = cap ? cap : sep == 1 ? 200000 : 60; l.setMaxIterations(lim); l.setMaxUpdates(cap ? cap : sep == 1 ? 1e9 : 2000); auto before = strip(d); bool r = l.train(); transition(); count("trainings");
    auto ctx = [&] { return " from w=" + str(w0) + " b=" + num(b0) + " on " + show(d); };
    expectf(r || sep != 1, key + "/converges", [&] { return "separable data are not separated" + ctx(); }); expectf(!r || sep != 0, key + "/converges", [&] { return "training succeeds on data which cannot be separated" + ctx(); }); expectf(strip(d) == before, key + "/data", [&] { return "training changed the samples" + ctx(); });
    if (!r) return; auto f = [&]() -> std::function<double(const V&)> { if (k.type >= 0) return dual(l, d, k.type, k.param); return linear(l); }(); auto sol = l.getSolution(); V w(sol.w.begin(), sol.w.end()); double nrm = k.type >= 0 ? knorm(sol.alpha, d, k.type, k.param) : qnorm(w, k.q), lo = 1e300;
    for (auto& p : pts(d)) { double m = p.y * f(p.x); lo = std::min(lo, m); expectf(m > k.gamma * nrm - 1e-7 * (1 + nrm) && (k.gamma > 0 || m > -1e-9), key + "/separates", [&] { return "training succeeded, but y*f = " + num(m) + " for " + show({p}) + " (margin " + num(k.gamma * nrm) + ")" + ctx(); }); double c = l.evaluate(mk(p.x, 0)); expectf(std::abs(m) < 1e-9 || c == p.y, key + "/separates", [&] { return "training succeeded, but " + show({p}) + " is in class " + num(c) + ctx(); }); }
    if (k.normed) expectf(close(nrm * nrm, sol.norm * sol.norm, 1e-6), key + "/norm", [&] { return "reported norm " + num(sol.norm) + " is not that of the weights " + num(nrm) + ctx(); });
    if (ima) { expectf(close(sol.margin * nrm, lo, 1e-6), key + "/margin", [&] { return "reported margin " + num(sol.margin) + ", the solution has " + num(lo / nrm) + ctx(); }); }
    consistent(l, d, f, key); if (k.type == 0) { auto g = linear(l); for (auto& q : queries(d)) expectf(close(g(q), f(q), 1e-7), key + "/w", [&] { return "the weights give " + num(g(q)) + " at " + str(q) + ", the alphas " + num(f(q)) + ctx(); }); }
}
static bool wins(const V& w, double b, const VV& xs, const V& ys) { for (size_t i = 0; i < xs.size(); i++) if (ys[i] * (dotp(w, xs[i]) + b) <= 0) return false; return true; }
static void all(const VV& xs, const V& ys, bool sepb) {
    D d = make(xs, ys); d.setClasses({-1, 1}); nontrivial(); size_t dim = xs[0].size(), n = xs.size(); int sep = sepb ? 1 : 0, con = contradictory(xs, ys); auto both = std::count(ys.begin(), ys.end(), ys[0]) < (long)n;
    // the solutions to start from: every w with entries in {-2, 0, 1} and some biases
    product(dim, 3, [&](const std::vector<int>& id) { for (double b0 : {0.0, -1.5, 1.0}) { V w0; for (int i : id) w0.push_back(i == 0 ? -2 : i - 1); double nn = qnorm(w0, 2); auto init = [&](double q) { So s; s.w = mltk::Point<double>(w0.size()); for (size_t i = 0; i < w0.size(); i++) s.w[i] = w0[i]; s.bias = b0; s.norm = qnorm(w0, q); return s; };
        { So s = init(2); PP l(d, 2, 0.5, &s); run(l, w0, b0, {}, sep, "primal"); if (b0 == 0 && wins(w0, 0, xs, ys)) expectf(l.getCtot() == 0 && wv(l.getSolution()) == w0, "primal/kept", [&] { return "a solution which separates the data is changed: " + str(w0) + " on " + show(d); }); expect(V(s.w.begin(), s.w.end()) == w0 && s.bias == b0, "primal/own", "the given solution changed"); PP m(mltk::make_data<double>(d), 2, 1.0, &s); run(m, w0, b0, {}, sep, "primal-pointer"); PP o(d); o.setSolution(s); run(o, w0, b0, {}, sep, "primal-set"); }
        for (double q : {2.0, 1.0, -1.0, 3.0}) { So s = init(q); K k; k.q = q; { FP l(d, 0, q, 0.5, &s); run(l, w0, b0, k, sep, "fixed"); if (wins(w0, b0, xs, ys)) { auto t = l.getSolution(); expectf(l.getCtot() == 0 && V(t.w.begin(), t.w.end()) == w0 && t.bias == b0, "fixed/kept", [&] { return "a solution which separates the data is changed: " + str(w0) + " " + num(b0) + " on " + show(d); }); } } k.gamma = 0.05; FP m(d, 0.05, q, 0.5, &s); run(m, w0, b0, k, sepb ? -1 : 0, "fixed-margin"); }
        { So s = init(2); IF l(d, 0, &s); run(l, w0, b0, {}, sep, "ima-fixed"); if (wins(w0, b0, xs, ys)) { auto t = l.getSolution(); expectf(l.getCtot() == 0 && V(t.w.begin(), t.w.end()) == w0 && t.bias == b0, "ima-fixed/kept", [&] { return "a solution which separates the data is changed: " + str(w0) + " " + num(b0) + " on " + show(d); }); } K k; k.gamma = 0.05; IF m(d, 0.05, &s); run(m, w0, b0, k, sepb ? -1 : 0, "ima-fixed"); }
        if (nn > 0 && both) for (int q : {2, 1, 3, -1}) { So s = init(q); K k; k.q = q; IM l(d, q, 0, 0, &s); run(l, w0, b0, k, sep, "ima", true); expect(V(s.w.begin(), s.w.end()) == w0 && s.bias == b0, "ima/own", "the given solution changed"); }
        { So s = init(2); if (both && b0 == 1 && id[0] == 2) { ID l(d, mltk::INNER_PRODUCT, 0, 1, &s); run(l, w0, b0, {0, 0, 0, 2, true}, sep, "ima-dual", true, 3000); ID g(mltk::GAUSSIAN, 0.8, 1, &s); g.setSamples(d); run(g, w0, b0, {mltk::GAUSSIAN, 0.8, 0, 2, true}, con ? 0 : 1, "ima-dual", true, 3000); } }
    } });
    // the duals start from alphas: every one with entries in {0, 2.5} (and 1)
    product(std::min<int>(n, 3), thorough() ? 3 : 2, [&](const std::vector<int>& id) { V a; for (size_t i = 0; i < n; i++) a.push_back(id[i % id.size()] == 1 ? 2.5 : id[i % id.size()] / 2); for (double b0 : {0.0, -1.0}) for (int type : {(int)mltk::INNER_PRODUCT, (int)mltk::GAUSSIAN}) { double par = type == mltk::GAUSSIAN ? 0.8 : 0; So s; s.alpha = a; s.bias = b0; s.norm = knorm(a, d, type, par); s.w = mltk::Point<double>(dim); int sp = type == mltk::GAUSSIAN ? !con : sep;
        { PD l(d, (mltk::KernelType)type, par, 0.5, &s); run(l, a, b0, {type, par}, sp, "dual"); expect(s.alpha == a && s.bias == b0, "dual/own", "the given solution changed"); } { PD l(d, 0.5, &s); l.setKernelType((mltk::KernelType)type); l.setKernelParam(par); run(l, a, b0, {type, par}, sp, "dual-default"); bool ok = true; for (size_t i = 0; i < n && ok; i++) { double f = b0; for (size_t j = 0; j < n; j++) f += a[j] * ys[j] * kern(type, par, xs[j], xs[i]); ok = ys[i] * f > 1e-9; } if (ok) { auto t = l.getSolution(); expectf(l.getCtot() == 0 && t.alpha == a && t.bias == b0, "dual/kept", [&] { return "alphas which separate the data are changed: " + str(a) + " " + num(b0) + " on " + show(d); }); } } { FD l(d, (mltk::KernelType)type, par, 0, 0.5, &s); run(l, a, b0, {type, par}, sp, "fixed-dual"); }
        // a solution for another number of samples is no start
        { So t; t.alpha = V(n + 1, 1.0); t.bias = 3; t.norm = 2; PD l(d, (mltk::KernelType)type, par, 0.5, &t); run(l, t.alpha, 3, {type, par}, sp, "dual-other"); } } });
    { So t; t.w = mltk::Point<double>(dim + 2); t.bias = 3; t.norm = 2; PP l(d, 2, 0.5, &t); run(l, V(dim + 2, 0), 3, {}, sep, "primal-other"); FP m(d, 0, 2, 0.5, &t); run(m, V(dim + 2, 0), 3, {}, sep, "fixed-other"); IF i(d, 0, &t); run(i, V(dim + 2, 0), 3, {}, sep, "ima-fixed-other"); }
    // a learner trained on these samples hands its solution to another
    if (sepb) { PP a(d); a.setVerbose(0); a.setMaxIterations(200000); a.train(); So s = a.getSolution(); FP b(d, 0, 2, 0.5, &s); run(b, {}, s.bias, {}, 1, "chain/fixed"); expect(b.getCtot() == 0, "chain/fixed", "the solution of another perceptron is changed"); if (both && s.norm > 0) { So t = b.getSolution(); IM c(d, 2, 0, 0, &t); run(c, {}, t.bias, {}, 1, "chain/ima", true); double lo = 1e300; V w(s.w.begin(), s.w.end()); for (size_t i = 0; i < n; i++) lo = std::min(lo, ys[i] * (dotp(w, xs[i]) + s.bias)); expectf(c.getSolution().margin >= lo / qnorm(w, 2) - 1e-9, "chain/ima", [&] { return "the margin " + num(c.getSolution().margin) + " is less than that of the given solution " + num(lo / qnorm(w, 2)) + " on " + show(d); }); } }
}
void vf::run() {
    auto go = [&](const VV& xs, const V& ys, const std::string& desc) { kase("start", desc, [&] { all(xs, ys, separable(xs, ys)); }); };
    for (int n = 1; n <= (thorough() ? 5 : 4); n++) product(n, 5, [&](const std::vector<int>& id) { for (int l = 0; l < 1 << n; l++) { if (!thorough() && n == 4 && (l + id[0] * 3 + id[3]) % 5) continue; VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({id[i] - 2.0}); ys.push_back(l >> i & 1 ? 1 : -1); } go(xs, ys, "line " + str(id) + " labels " + std::to_string(l)); } });
    for (int n = 2; n <= (thorough() ? 5 : 4); n++) multisets(n, 9, [&](const std::vector<int>& id) { for (int i = 0; i + 1 < n; i++) if (id[i] == id[i + 1]) return; for (int l = 0; l < 1 << n; l++) { if (!thorough() && n == 4 && (l + id[0] + id[1]) % 9) continue; VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({id[i] % 3 - 0.0, id[i] / 3 - 1.0}); ys.push_back(l >> i & 1 ? 1 : -1); } if (l % 2) { std::reverse(xs.begin(), xs.end()); std::reverse(ys.begin(), ys.end()); } go(xs, ys, "grid " + str(id) + " labels " + std::to_string(l)); } });
    for (int n = 2; n <= 4; n++) multisets(n, 8, [&](const std::vector<int>& id) { for (int i = 0; i + 1 < n; i++) if (id[i] == id[i + 1]) return; for (int l = 0; l < 1 << n; l++) { if (!thorough() && (l + id[0]) % (n == 4 ? 9 : 3)) continue; VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({id[i] & 1 ? 2.0 : -1.0, id[i] & 2 ? 1.0 : 0.0, id[i] & 4 ? 1.0 : -1.0}); ys.push_back(l >> i & 1 ? 1 : -1); } go(xs, ys, "cube " + str(id) + " labels " + std::to_string(l)); } });
    for (int n = 6; n <= (thorough() ? 40 : 22); n += thorough() ? 2 : 8) for (int dim = 1; dim <= 3; dim++) for (int pat = 0; pat < 3; pat++) kase("start", "size " + std::to_string(n) + " dim " + std::to_string(dim) + " pattern " + std::to_string(pat), [&] { VV xs; V ys; for (int i = 0; i < n; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(2 * std::sin(i * (j + 1) * 1.7 + j * j + pat)); double f = pat - 1; for (int j = 0; j < dim; j++) f += x[j] * (j % 2 ? -1 : 1.5); int y = f >= 0 ? 1 : -1; for (int j = 0; j < dim; j++) x[j] += 0.4 * y * (j % 2 ? -1 : 1.5); xs.push_back(x); ys.push_back(y); } all(xs, ys, true); });
}
