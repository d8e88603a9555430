// C32: the incremental margin algorithm finds separating hyperplanes of growing margin and reports them.
#include "cls.hpp"
using namespace ds; using namespace vf; using namespace cl;
using IP = mltk::classifier::IMAp<double>; using ID = mltk::classifier::IMADual<double>;
struct Spec { bool dual = false; int type = 0; double param = 0, q = 2; double part = 0; };
template <class L> static void limits(L& l, int it) { l.setMaxTime(1e9); l.setVerbose(0); l.setMaxIterations(it); }
static double qnorm(const V& w, double q) { double t = 0; if (q == -1) { for (double x : w) t = std::max(t, std::abs(x)); return t; } for (double x : w) t += std::pow(std::abs(x), q); return std::pow(t, 1 / q); }
// largest margin of a separating line in the plane or on the line (0: none): between two points or a point and a segment
static double best(const VV& xs, const V& ys) { size_t d = xs[0].size(); double b = 0; auto tryn = [&](V n) { double l = std::sqrt(dotp(n, n)); if (l < 1e-9) return; for (int s : {1, -1}) { double lo = 1e300, hi = -1e300; for (size_t i = 0; i < xs.size(); i++) { double v = s * dotp(n, xs[i]) / l; if (ys[i] > 0) lo = std::min(lo, v); else hi = std::max(hi, v); } b = std::max(b, (lo - hi) / 2); } }; if (d > 2) return -1; for (auto& p : xs) for (auto& r : xs) { V n(d); for (size_t j = 0; j < d; j++) n[j] = p[j] - r[j]; tryn(n); if (d == 2) tryn({-n[1], n[0]}); } return b; }
template <class L> static double once(L& l, const D& d, const Spec& s, int sep, int it, const std::string& key) {
    auto before = strip(d); bool r = l.train(); transition(); count("trainings"); auto ctx = [&] { return " on " + show(d); };
    expectf(r || sep != 1, key + "/converges", [&] { return "separable data are not separated" + ctx(); }); expectf(!r || sep != 0, key + "/converges", [&] { return "training succeeds on data which cannot be separated" + ctx(); });
    expectf(strip(d) == before, key + "/data", [&] { return "training changed the samples " + before + " to " + strip(d); }); if (!r) return -1;
    auto f = [&]() -> std::function<double(const V&)> { if (s.dual) return dual(l, d, s.type, s.param); return linear(l); }(); auto sol = l.getSolution(); V w(sol.w.begin(), sol.w.end()); auto data = pts(d);
    double nrm = s.dual ? knorm(sol.alpha, d, s.type, s.param) : qnorm(w, s.q), mp = 1e300, mn = 1e300; for (auto& p : data) { double m = p.y * f(p.x); (p.y > 0 ? mp : mn) = std::min(p.y > 0 ? mp : mn, m); double c = l.evaluate(mk(p.x, 0), false); expectf(m > -1e-9 && (std::abs(m) < 1e-9 || c == p.y), key + "/separates", [&] { return "training succeeded, but " + show({p}) + " has f = " + num(f(p.x)) + " and class " + num(c) + ctx(); }); }
    double m = std::min(mp, mn); expectf(close(m / nrm, sol.margin, 1e-6), key + "/margin", [&] { return "reported margin " + num(sol.margin) + ", the hyperplane has " + num(mp / nrm) + " and " + num(mn / nrm) + ctx(); });
    if (!s.dual) expectf(close(mp, mn, 1e-6), key + "/middle", [&] { return "the hyperplane is at " + num(mp / nrm) + " and " + num(mn / nrm) + " of the classes" + ctx(); });
    expectf(close(nrm, sol.norm, 1e-6), key + "/norm", [&] { return "reported norm " + num(sol.norm) + " is not that of the weights " + num(nrm) + ctx(); });
    consistent(l, d, f, key); if (s.dual && s.type == 0) { auto g = linear(l); for (auto& q : queries(d)) expectf(close(g(q), f(q), 1e-7), key + "/w", [&] { return "the weights give " + num(g(q)) + " at " + str(q) + ", the alphas " + num(f(q)) + ctx(); }); }
    auto sv = l.getSupportVectors(); for (int i : sv) expect(i >= 0 && i < (int)d.size(), key + "/svs", "support vector " + std::to_string(i) + " does not exist"); if (s.dual) { std::vector<int> e; for (size_t i = 0; i < sol.alpha.size(); i++) if (sol.alpha[i] > 0) e.push_back(i); expectf(sv == e && sol.svs == e.size(), key + "/svs", [&] { return "support vectors " + str(sv) + ", counted " + std::to_string(sol.svs) + ", alphas " + str(sol.alpha) + ctx(); }); }
    if (s.q == 2 && s.type == 0 && s.part > 0) { VV xs; V ys; for (auto& p : data) { xs.push_back(p.x); ys.push_back(p.y); } double b = best(xs, ys); if (b > 0) { double h = (mp + mn) / 2 / nrm; static double worst = 1; if (h / b < worst) { worst = h / b; if (getenv("VF_VERBOSE")) fprintf(stderr, "%s part %g %s\n", key.c_str(), worst, show(d).c_str()); } expectf(h <= b * (1 + 1e-6), key + "/optimal", [&] { return "margin " + num(h) + " above the largest possible " + num(b) + ctx(); }); expectf(h >= s.part * b, key + "/optimal", [&] { return "margin " + num(h) + " where " + num(b) + " is possible" + ctx(); }); } }
    return sol.margin;
}
template <class L, class Mk> static void life(Mk mk_, const D& d, const D& e, const Spec& s, int sep, int sepe, int it, const std::string& key) {
    int ld = sep == 1 ? it : 60, le = sepe == 1 ? it : 60;
    { auto l = mk_(d); limits(l, ld); double m = once(l, *l.getSamples(), s, sep, it, key + "/train"); double m2 = once(l, *l.getSamples(), s, sep, it, key + "/again"); (void)m; (void)m2; limits(l, le); l.setSamples(e); once(l, *l.getSamples(), s, sepe, it, key + "/other"); limits(l, ld); l.setSamples(d); once(l, *l.getSamples(), s, sep, it, key + "/back"); }
    if (sep == 1) { auto l = mk_(d); limits(l, ld); l.train(); auto f = [&](const V& x) { return l.evaluate(mk(x, 0), true); }; VV q = queries(*l.getSamples()); V a; for (auto& x : q) a.push_back(f(x)); L c(l); limits(c, le); c.setSamples(e); once(c, *c.getSamples(), s, sepe, it, key + "/copy"); for (size_t i = 0; i < q.size(); i++) expectf(f(q[i]) == a[i], key + "/copy-original", [&] { return "training a copy changes the answer of the original at " + str(q[i]); }); once(l, *l.getSamples(), s, sep, it, key + "/copy-original"); }
    { auto l = mk_(d); limits(l, ld); l.train(); auto p = mltk::make_data<double>(e); l.setSamples(p); if constexpr (std::is_same_v<L, ID>) if (d.size() == e.size()) l.recomputeKernel(); limits(l, le); once(l, *p, s, sepe, it, key + "/pointer"); }
}
static void all(const VV& xs, const V& ys, const VV& xe, const V& ye, int sep, int sepe, bool deep) {
    D d = make(xs, ys), e = make(xe, ye); d.setClasses({-1, 1}); e.setClasses({-1, 1}); nontrivial(); int it = 3000; bool con = contradictory(xs, ys), cone = contradictory(xe, ye); int g = con ? 0 : 1, ge = cone ? 0 : 1;
    Spec p; p.part = 0.3; life<IP>([](const D& x) { return IP(x); }, d, e, p, sep, sepe, it, "primal");
    Spec u; u.dual = true; u.part = 0.3; life<ID>([](const D& x) { return ID(x); }, d, e, u, sep, sepe, it, "dual"); life<ID>([](const D& x) { return ID(x, mltk::GAUSSIAN, 0.8); }, d, e, {true, mltk::GAUSSIAN, 0.8}, g, ge, it, "dual");
    if (!deep) return;
    for (int q : {1, 3, -1}) { Spec t; t.q = q; life<IP>([q](const D& x) { return IP(x, q); }, d, e, t, sep, sepe, it, "primal-q" + std::to_string(q)); }
    life<IP>([](const D& x) { IP l; l.setSamples(x); return l; }, d, e, p, sep, sepe, it, "primal-default"); life<ID>([](const D& x) { ID l(mltk::INNER_PRODUCT); l.setSamples(x); return l; }, d, e, u, sep, sepe, it, "dual-default");
}
void vf::run() {
    VV e1 = {{1, 0, 2}, {-1, 0, 1}, {0, 2, -1}}; V y1 = {1, -1, 1}; VV e2 = {{3, 1}, {0, -2}, {-1, 1}, {2, 2}}; V y2 = {-1, 1, -1, 1}; VV e3 = {{0}, {1}, {2}, {3}, {4}}; V y3 = {1, -1, 1, -1, 1};
    auto go = [&](const VV& xs, const V& ys, const std::string& desc, int k, bool deep) { double s = 0; for (double y : ys) s += y; if (std::abs(s) == ys.size()) { skip(); return; } kase("ima", desc, [&] { int sep = separable(xs, ys) ? 1 : 0; switch (k % 3) { case 0: all(xs, ys, e1, y1, sep, 1, deep); break; case 1: all(xs, ys, e2, y2, sep, separable(e2, y2), deep); break; default: all(xs, ys, e3, y3, sep, 0, deep); } }); };
    int k = 0; for (int n = 2; n <= (thorough() ? 5 : 4); n++) product(n, 5, [&](const std::vector<int>& id) { if (!thorough() && n == 4 && k++ % 6) return; for (int l = 0; l < 1 << n; l++) { VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({id[i] - 2.0}); ys.push_back(l >> i & 1 ? 1 : -1); } if (n >= 4 && (l & 1)) continue; go(xs, ys, "line " + str(id) + " labels " + std::to_string(l), l + n + id[0], n <= 3); } });
    for (int n = 2; n <= (thorough() ? 5 : 4); n++) multisets(n, 9, [&](const std::vector<int>& id) { for (int i = 0; i + 1 < n; i++) if (id[i] == id[i + 1]) return; for (int l = 0; l < 1 << n; l++) { if (!thorough() && n == 4 && (l + id[0] + id[1]) % 3) continue; VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({id[i] % 3 - 0.0, id[i] / 3 - 1.0}); ys.push_back(l >> i & 1 ? 1 : -1); } if (l % 2) { std::reverse(xs.begin(), xs.end()); std::reverse(ys.begin(), ys.end()); } go(xs, ys, "grid " + str(id) + " labels " + std::to_string(l), l + n, n <= 3); } });
    for (int n = 6; n <= (thorough() ? 60 : 30); n += thorough() ? 1 : 3) for (int dim = 1; dim <= 5; dim++) for (int pat = 0; pat < 3; pat++) kase("ima", "size " + std::to_string(n) + " dim " + std::to_string(dim) + " pattern " + std::to_string(pat), [&] { VV xs; V ys; for (int i = 0; i < n; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(2 * std::sin(i * (j + 1) * 1.7 + j * j + pat)); double f = pat - 1; for (int j = 0; j < dim; j++) f += x[j] * (j % 2 ? -1 : 1.5); int y = f >= 0 ? 1 : -1; for (int j = 0; j < dim; j++) x[j] += 0.4 * y * (j % 2 ? -1 : 1.5); xs.push_back(x); ys.push_back(y); } all(xs, ys, n % 2 ? e1 : e3, n % 2 ? y1 : y3, 1, n % 2, dim == 2); });
}
