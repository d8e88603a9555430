// C23: kernels, their matrices, norms and the weights in dual variables are what they are defined to be.
#include "cls.hpp"
#include "ufjfmltk/core/Kernel.hpp"
using namespace ds; using namespace vf; using namespace cl; using K = mltk::Kernel<double>; using SM = mltk::classifier::SMO<double>; using PD = mltk::classifier::PerceptronDual<double>;
static double cust(int which, double param, const V& a, const V& b) { return which ? dotp(a, b) + param : std::abs(dotp(a, b)) + 1; }
static auto lib(int which) { return [which](mltk::Point<double>& a, mltk::Point<double>& b, double param) { return cust(which, param, V(a.begin(), a.end()), V(b.begin(), b.end())); }; }
struct Spec { int type; double param; };
static double k(const Spec& s, int which, const V& a, const V& b) { return s.type == mltk::CUSTOM ? cust(which, s.param, a, b) : kern(s.type, s.param, a, b); }
static V without(V a, int d) { if (d >= 0) a.erase(a.begin() + d); return a; }
template <class M, class F> static void matrix(const M& m, size_t n, F f, const std::string& key, const D& d) { if (!expectf(m.size() == n, key + "/size", [&] { return std::to_string(m.size()) + " rows for " + show(d); })) return; for (size_t i = 0; i < n; i++) { if (!expect(m[i].size() == n, key + "/size", "row length")) return; for (size_t j = 0; j < n; j++) expectf(close(m[i][j], f(i, j), 1e-9), key, [&] { return "entry " + std::to_string(i) + "," + std::to_string(j) + " is " + num(m[i][j]) + ", expected " + num(f(i, j)) + " for " + show(d); }); } count("matrices"); }
static void mats(K& kn, const Spec& s, int which, const D& dd, const std::string& key) {
    auto p = pts(dd); size_t n = p.size(); auto d = mltk::make_data<double>(dd); auto f = [&](size_t i, size_t j) { return k(s, which, p[i].x, p[j].x); }; transition();
    matrix(kn.getKernelMatrix(), n, f, key + "/matrix", dd); matrix(*kn.getKernelMatrixPointer(), n, f, key + "/pointer", dd); expect(kn.size() == n, key + "/size", "size() is " + std::to_string(kn.size())); for (size_t i = 0; i < n; i++) { auto r = kn[i]; for (size_t j = 0; j < n; j++) expect(close(r[j], f(i, j)), key + "/row", "operator[]"); }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) expectf(close(kn(*d->point(i), *d->point(j)), f(i, j)), key + "/function", [&] { return "the kernel of " + str(p[i].x) + " and " + str(p[j].x) + " is " + num(kn(*d->point(i), *d->point(j))) + ", expected " + num(f(i, j)); });
    matrix(*kn.generateMatrixH(d), n, [&](size_t i, size_t j) { return f(i, j) * p[i].y * p[j].y; }, key + "/H", dd);
    if (s.type != mltk::CUSTOM) for (int t = -1; t < (int)dd.dim(); t++) matrix(*kn.generateMatrixHwithoutDim(d, t), n, [&](size_t i, size_t j) { return kern(s.type, s.param, without(p[i].x, t), without(p[j].x, t)) * p[i].y * p[j].y; }, key + "/H-without", dd);
    double q = 0, qp = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double v = p[i].alpha * p[j].alpha * p[i].y * p[j].y * f(i, j); q += v; if (p[i].alpha > 0 && p[j].alpha > 0) qp += v; } if (q > 1e-6) expectf(close(kn.norm(dd), std::sqrt(q), 1e-6), key + "/norm", [&] { return "norm " + num(kn.norm(dd)) + ", expected " + num(std::sqrt(q)) + " for " + show(dd); }); if (qp > 1e-6) expectf(close(kn.featureSpaceNorm(d), std::sqrt(qp), 1e-6), key + "/norm", [&] { return "feature space norm " + num(kn.featureSpaceNorm(d)) + ", expected " + num(std::sqrt(qp)) + " for " + show(dd); });
    expect(kn.getType() == s.type && kn.getParam() == s.param, key + "/type", "type or parameter reported");
}
static D alphas(D d, int pat) { for (size_t i = 0; i < d.size(); i++) d.point(i)->Alpha() = pat == 0 ? 1 : pat == 1 ? (i % 2 ? 0.5 : 0) : pat == 2 ? 0.3 * i + 0.1 : i == 0; return d; }
static void dualw(const D& d, const Spec& s, const std::string& key) { // the weights of dual classifiers
    SM l(d, (mltk::KernelType)s.type, s.param); l.setMaxEpochs(500); l.train(); auto check = [&](auto& l, const D& d, const std::string& key) { auto p = pts(d); size_t n = p.size(); V w = l.getDualWeight().X(), wi = l.getDualWeightProdInt().X(), wl = l.getWeight().X(), e(d.dim()), ei(d.dim()), el(d.dim()); double tot = 0; for (size_t t = 0; t < d.dim(); t++) for (size_t i = 0; i < n; i++) { el[t] += p[i].alpha * p[i].y * p[i].x[t]; tot += p[i].alpha * p[i].alpha * 20; for (size_t j = 0; j < n; j++) { double c = p[i].alpha * p[j].alpha * p[i].y * p[j].y; ei[t] += c * p[i].x[t] * p[j].x[t]; e[t] += c * (kern(s.type, s.param, p[i].x, p[j].x) - kern(s.type, s.param, without(p[i].x, t), without(p[j].x, t))); } }
        auto same = [&](const V& a, const V& b, const char* m) { bool ok = a.size() == b.size(); for (size_t i = 0; ok && i < a.size(); i++) ok = std::abs(a[i] - b[i]) <= 1e-8 * (1 + tot * n); expectf(ok, key + m, [&] { return "weights " + str(a) + ", expected " + str(b) + " on " + show(d); }); }; same(w, e, "/weight"); same(wi, ei, "/weight-product"); same(wl, el, "/weight-linear"); count("weights", 3); };
    check(l, *l.getSamples(), key + "/smo"); D e = alphas(d, 2); SM u(d, (mltk::KernelType)s.type, s.param); u.setMaxEpochs(50); u.train(); auto ud = u.getSamples(); for (size_t i = 0; i < d.size(); i++) ud->point(i)->Alpha() = e.point(i)->Alpha(); check(u, *ud, key + "/alphas");
}
static void all(const D& base, const D& other, const std::string& key, bool weights) {
    std::vector<Spec> sp = {{mltk::INNER_PRODUCT, 0}, {mltk::POLYNOMIAL, 0.5}, {mltk::POLYNOMIAL, 1}, {mltk::POLYNOMIAL, 2}, {mltk::POLYNOMIAL, 3}, {mltk::GAUSSIAN, 0.25}, {mltk::GAUSSIAN, 1.5}, {mltk::GAUSSIAN, 0}, {mltk::CUSTOM, 2}}; nontrivial(key + show(base)); auto before = show(base);
    for (auto& s : sp) { for (int pat = 0; pat < 4; pat++) { D d = alphas(base, pat); auto dp = mltk::make_data<double>(d); K a(s.type, s.param); if (s.type == mltk::CUSTOM) a.compute(dp, lib(0)); else a.compute(dp); mats(a, s, 0, d, key); if (pat) continue;
            a.compute(dp); mats(a, s, 0, d, key + "/again"); auto op = mltk::make_data<double>(other); a.recompute(); a.compute(op); mats(a, s, 0, other, key + "/other"); if (s.type == mltk::CUSTOM) { a(d, lib(1)); mats(a, s, 1, d, key + "/custom"); } else { a(d); mats(a, s, 0, d, key + "/apply"); }
            K c(a); mats(c, s, s.type == mltk::CUSTOM, d, key + "/copy"); if (s.type == mltk::CUSTOM) c(other, lib(0)); else c(other); mats(c, s, 0, other, key + "/copy"); mats(a, s, s.type == mltk::CUSTOM, d, key + "/original");
            for (auto& t : sp) if (t.type != mltk::CUSTOM) { K b(s.type, s.param); if (s.type == mltk::CUSTOM) b.compute(dp, lib(0)); else b.compute(dp); b.setType(t.type); b.setParam(t.param); b.compute(dp); mats(b, t, 0, d, key + "/changed"); }
            if (s.type != mltk::CUSTOM) { K b(s.type, s.param); b.compute(dp); Spec u = s; for (double q : {s.param + 0.01, s.param, s.param + 2}) { u.param = q; b.setParam(q); b.compute(dp); mats(b, u, 0, d, key + "/parameter"); } for (int t : {(int)mltk::GAUSSIAN, (int)mltk::INNER_PRODUCT, (int)mltk::POLYNOMIAL}) { u.type = t; b.setType(t); b.compute(dp); mats(b, u, 0, d, key + "/type"); } }
            K z(mltk::dMatrix{{1, 2}, {2, 5}}); expect(z.getKernelMatrix()[1][1] == 5 && z.size() == 2, key + "/given", "a given kernel matrix"); z.setKernelMatrix({{7}}); expect(z.getKernelMatrix()[0][0] == 7, key + "/given", "a matrix set"); }
        if (weights && s.type != mltk::CUSTOM) dualw(base, s, key); }
    expect(show(base) == before, key + "/data", "the dataset changed");
}
void vf::run() {
    std::vector<VV> vals = {{{0}, {1}, {-2}, {0.5}}, {{0, 0}, {1, 2}, {-1, 0.5}, {1, -1}}, {{0, 1, 0}, {1, 1, -1}, {2, 0, 0.5}, {-1, -1, 1}}}; VV o1 = {{3, 1}, {-1, 2}, {0.5, 0}, {2, 2}, {1, -3}}; D other = alphas(make(o1, {1, -1, 1, 1, -1}), 2);
    for (size_t g = 0; g < vals.size(); g++) for (int n = 1; n <= (thorough() ? 4 : 3); n++) product(n, 4, [&](const std::vector<int>& id) { for (int l = 0; l < (1 << n); l++) { if (!thorough() && n == 3 && (l + id[0] + id[2]) % 4) continue; kase("kernel", "values " + std::to_string(g) + " points " + str(id) + " labels " + std::to_string(l), [&] { VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back(vals[g][id[i]]); ys.push_back(l >> i & 1 ? 1 : -1); } D d = make(xs, ys); d.setClasses({-1, 1}); all(d, other, "kernel", n > 1 && l && l != (1 << n) - 1); }); } });
    for (int n = 4; n <= (thorough() ? 40 : 24); n += thorough() ? 1 : 4) for (int dim = 1; dim <= 5; dim += 2) kase("kernel", "size " + std::to_string(n) + " dim " + std::to_string(dim), [&] { VV xs; V ys; for (int i = 0; i < n; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(std::sin(i * 1.7 + j * 2.9) * 2); xs.push_back(x); ys.push_back(i % 3 ? 1 : -1); } D d = make(xs, ys); all(d, other, "kernel", n < 13); });
}
