// C18: SMO finds the maximum margin separation (its solution satisfies the optimality conditions).
#include "cls.hpp"
using namespace ds; using namespace vf; using namespace cl;
using SM = mltk::classifier::SMO<double>;
static const double C = 9999;
// distance between the convex hulls of the classes of a plane point set (separable data): a vertex of one and a vertex or edge of the other
static double hull_dist(const VV& xs, const V& ys) { size_t d = xs[0].size(); double best = 1e300; auto dist = [&](const V& a, const V& b) { double s = 0; for (size_t i = 0; i < d; i++) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); };
    for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j < xs.size(); j++) if (ys[i] != ys[j]) { best = std::min(best, dist(xs[i], xs[j])); for (size_t k = 0; k < j; k++) if (ys[k] == ys[j]) { V u(d), v(d); double uu = 0, uv = 0; for (size_t t = 0; t < d; t++) { u[t] = xs[k][t] - xs[j][t]; v[t] = xs[i][t] - xs[j][t]; uu += u[t] * u[t]; uv += u[t] * v[t]; } if (uu == 0) continue; double a = std::min(1.0, std::max(0.0, uv / uu)); V p(d); for (size_t t = 0; t < d; t++) p[t] = xs[j][t] + a * u[t]; best = std::min(best, dist(xs[i], p)); } }
    return best; }
static void once(SM& l, const D& d, int type, double param, int sep, double margin, const std::string& key) {
    auto before = strip(d); int lim = sep == 1 ? 20000 : 3000; l.setMaxEpochs(lim); bool r = l.train(); transition(); count("trainings"); auto s = l.getSolution(); auto p = pts(d); size_t n = p.size(); auto f = dual(l, d, type, param);
    expectf(r || sep != 1, key + "/converges", [&] { return "no solution for separable data " + show(d); }); consistent(l, d, f, key); expectf(strip(d) == before, key + "/data", [&] { return "training changed the samples " + show(d); });
    if (!expect(s.alpha.size() == n, key + "/alphas", "number of alphas")) return; unsigned sv = 0; double sum = 0, tot = 0, nrm = knorm(s.alpha, d, type, param); for (size_t i = 0; i < n; i++) { sv += s.alpha[i] > 0; sum += s.alpha[i] * p[i].y; tot += s.alpha[i]; expectf(s.alpha[i] >= -1e-9 && s.alpha[i] <= C * (1 + 1e-9), key + "/bounds", [&] { return "alpha " + num(s.alpha[i]) + " out of bounds on " + show(d); }); }
    expectf(s.svs == sv, key + "/svs", [&] { return std::to_string(s.svs) + " support vectors reported, there are " + std::to_string(sv) + " on " + show(d); }); expectf(std::abs(sum) <= 1e-7 * (1 + tot), key + "/balance", [&] { return "the alphas of the classes sum up to a difference of " + num(sum) + " on " + show(d); });
    if (type == mltk::INNER_PRODUCT) { auto g = linear(l); for (auto& q : queries(d)) expectf(std::abs(g(q) - f(q)) < 1e-7 * (1 + tot), key + "/w", [&] { return "the weights give " + num(g(q)) + " at " + str(q) + ", the alphas " + num(f(q)); }); }
    if (!r) return; count("solutions"); if (sep != 1) return; if (nrm > 0) expectf(close(s.margin * nrm, 1, 1e-6), key + "/margin", [&] { return "reported margin " + num(s.margin) + ", 1/|w| is " + num(1 / nrm) + " on " + show(d); });
    double tol = 2e-3 * (1 + 1e-4 * tot); for (size_t i = 0; i < n; i++) { double m = p[i].y * f(p[i].x), a = s.alpha[i]; bool ok = a <= 1e-8 ? m >= 1 - tol : a >= C - 1e-6 ? m <= 1 + tol : std::abs(m - 1) <= tol; expectf(ok, key + "/optimal", [&] { return "alpha " + num(a) + " and y*f = " + num(m) + " contradict the optimality conditions for " + show({p[i]}) + " on " + show(d); });
        if (sep == 1) expectf(l.evaluate(mk(p[i].x, 0)) == p[i].y, key + "/separates", [&] { return show({p[i]}) + " is in the wrong class on " + show(d); }); }
    if (margin > 0) expectf(close(s.margin, margin, 3e-3), key + "/maximal", [&] { return "margin " + num(s.margin) + ", the largest possible is " + num(margin) + " on " + show(d); });
}
static void all(const VV& xs, const V& ys, int sep, bool planar, const VV& xe, const V& ye) {
    D d = make(xs, ys), e = make(xe, ye); d.setClasses({-1, 1}); e.setClasses({-1, 1}); nontrivial(); double m = sep && planar ? hull_dist(xs, ys) / 2 : 0, me = hull_dist(xe, ye) / 2; bool con = contradictory(xs, ys);
    for (int k = 0; k < 3; k++) { int type = k == 0 ? mltk::INNER_PRODUCT : k == 1 ? mltk::GAUSSIAN : mltk::POLYNOMIAL; double param = k == 0 ? 0 : k == 1 ? 0.6 : 2; std::string key = k == 0 ? "linear" : k == 1 ? "gaussian" : "polynomial"; int sp = k == 0 ? sep : k == 1 ? (con ? 0 : 1) : -1, se = k == 2 ? -1 : 1; double mm = k ? 0 : m, mme = k ? 0 : me;
        SM l(d, (mltk::KernelType)type, param); once(l, *l.getSamples(), type, param, sp, mm, key); if (k == 2) continue; once(l, *l.getSamples(), type, param, sp, mm, key + "/again"); l.setSamples(e); once(l, *l.getSamples(), type, param, se, mme, key + "/other"); auto q = mltk::make_data<double>(d); l.setSamples(q); once(l, *q, type, param, sp, mm, key + "/pointer");
        SM a(d, (mltk::KernelType)type, param); a.setMaxEpochs(3000); a.train(); V ans; for (auto& x : xs) ans.push_back(a.evaluate(mk(x, 0), true)); { SM c(a); c.setSamples(e); once(c, *c.getSamples(), type, param, se, mme, key + "/copy"); } for (size_t i = 0; i < xs.size(); i++) expect(close(a.evaluate(mk(xs[i], 0), true), ans[i]), key + "/copy-original", "training a copy changes the answers of the original"); once(a, *a.getSamples(), type, param, sp, mm, key + "/copy-original");
        SM u; u.setKernelType((mltk::KernelType)type); u.setKernelParam(param); u.setVerbose(0); u.setSamples(d); once(u, *u.getSamples(), type, param, sp, mm, key + "/default"); expect(u.getKernelType() == type && u.getKernelParam() == param && l.getKernelType() == type, key + "/kernel", "kernel type or parameter reported"); }
}
void vf::run() {
    VV e1 = {{1, 0}, {-1, 0}, {0, 2}, {3, 3}, {-2, -1}}; V y1 = {1, -1, 1, 1, -1}; VV e2 = {{0.5}, {2}, {-1}}; V y2 = {1, 1, -1};
    auto go = [&](const VV& xs, const V& ys, const std::string& desc, bool planar) { kase("smo", desc, [&] { all(xs, ys, separable(xs, ys), planar, xs[0].size() == 2 ? e2 : e1, xs[0].size() == 2 ? y2 : y1); }); };
    for (int n = 2; n <= (thorough() ? 5 : 4); n++) product(n, 5, [&](const std::vector<int>& id) { for (int l = 1; l < (1 << n) - 1; l++) { if (!thorough() && n == 4 && (l + id[0] * 3 + id[3]) % 7) continue; VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({id[i] - 2.0}); ys.push_back(l >> i & 1 ? 1 : -1); } go(xs, ys, "line " + str(id) + " labels " + std::to_string(l), true); } });
    for (int n = 2; n <= (thorough() ? 6 : 5); n++) multisets(n, 9, [&](const std::vector<int>& id) { for (int i = 0; i + 1 < n; i++) if (id[i] == id[i + 1]) return; for (int l = 1; l < (1 << n) - 1; l++) { if (!thorough() && n >= 4 && (l + id[0] + id[1] * 2) % (n == 4 ? 3 : 8)) continue; VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({id[i] % 3 - 0.0, id[i] / 3 - 1.0}); ys.push_back(l >> i & 1 ? 1 : -1); } if (l % 2) { std::reverse(xs.begin(), xs.end()); std::reverse(ys.begin(), ys.end()); } go(xs, ys, "grid " + str(id) + " labels " + std::to_string(l), true); } });
    for (int n = 2; n <= 5; n++) multisets(n, 8, [&](const std::vector<int>& id) { for (int i = 0; i + 1 < n; i++) if (id[i] == id[i + 1]) return; for (int l = 1; l < (1 << n) - 1; l++) { if (!thorough() && n >= 4 && (l + id[0]) % 4) continue; VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({id[i] & 1 ? 2.0 : -1.0, id[i] & 2 ? 1.0 : 0.0, id[i] & 4 ? 1.0 : -1.0}); ys.push_back(l >> i & 1 ? 1 : -1); } go(xs, ys, "cube " + str(id) + " labels " + std::to_string(l), false); } });
    for (int n = 6; n <= (thorough() ? 60 : 30); n += thorough() ? 1 : 3) for (int dim = 1; dim <= 4; dim++) for (int pat = 0; pat < 3; pat++) kase("smo", "size " + std::to_string(n) + " dim " + std::to_string(dim) + " pattern " + std::to_string(pat), [&] { VV xs; V ys; for (int i = 0; i < n; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(2 * std::sin(i * (j + 1) * 1.7 + j * j + pat)); double f = pat - 1; for (int j = 0; j < dim; j++) f += x[j] * (j % 2 ? -1 : 1.5); int y = f >= 0 ? 1 : -1; for (int j = 0; j < dim; j++) x[j] += 0.4 * y * (j % 2 ? -1 : 1.5); xs.push_back(x); ys.push_back(y); } bool both = false; for (double y : ys) both |= y != ys[0]; if (both) all(xs, ys, 1, dim <= 2, dim == 2 ? e2 : e1, dim == 2 ? y2 : y1); });
}
