// Shared by the harnesses of the linear and kernel classifiers.
#pragma once
#include "dset.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
#include "ufjfmltk/classifier/SMO.hpp"
namespace cl {
using V = std::vector<double>; using VV = std::vector<V>; using namespace ds;
inline double dotp(const V& a, const V& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
// affine separability of small integer points: some integer normal with entries up to R separates them strictly
inline bool separable(const VV& xs, const V& ys, int R = 6) { size_t d = xs[0].size(); bool yes = false; vf::product(d, 2 * R + 1, [&](const std::vector<int>& n) { if (yes) return; double lo = 1e300, hi = -1e300; for (size_t i = 0; i < xs.size(); i++) { double s = 0; for (size_t j = 0; j < d; j++) s += (n[j] - R) * xs[i][j]; if (ys[i] > 0) lo = std::min(lo, s); else hi = std::max(hi, s); } yes = lo > hi; }); return yes; }
inline bool contradictory(const VV& xs, const V& ys) { for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j < i; j++) if (xs[i] == xs[j] && ys[i] != ys[j]) return true; return false; }
inline double kern(int type, double param, const V& a, const V& b) { double s = 0; if (type == mltk::GAUSSIAN) { for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return std::exp(-param * s); } s = dotp(a, b); return type == mltk::POLYNOMIAL && param > 1 ? std::pow(s, param) : s; }
inline VV queries(const D& d) { VV q; for (auto& p : pts(d)) { q.push_back(p.x); if (q.size() > 8) continue; V x = p.x; for (size_t i = 0; i < x.size(); i++) x[i] = 1.3 * x[i] + 0.37 - 0.2 * i; q.push_back(x); } V z(d.dim(), 0), o(d.dim(), -1.5); q.push_back(z); q.push_back(o); return q; }
inline std::string strip(const D& d) { auto v = pts(d); for (auto& p : v) p.alpha = 0; std::sort(v.begin(), v.end()); return show(v) + vf::str(d.classes()) + vf::str(d.classesDistribution()) + vf::str(d.getFeaturesNames()); }
// the raw value and class answered for every query fit the reported solution
template <class L, class F> inline void consistent(L& l, const D& d, F f, const std::string& key) {
    for (auto& q : queries(d)) { double e = f(q), r = l.evaluate(mk(q, 0), true), c = l.evaluate(mk(q, 0), false); vf::count("evaluations", 2); vf::expectf(vf::close(e, r, 1e-7), key + "/raw", [&] { return "raw value " + vf::num(r) + " at " + vf::str(q) + ", the solution gives " + vf::num(e) + " on " + show(d); });
        if (std::abs(e) > 1e-9) vf::expectf(c == (e > 0 ? 1 : -1), key + "/class", [&] { return "class " + vf::num(c) + " at " + vf::str(q) + " where the raw value is " + vf::num(e) + " on " + show(d); }); else vf::expectf(c == 1 || c == -1, key + "/class", [&] { return "class " + vf::num(c); }); }
}
template <class L> inline auto linear(L& l) { auto s = l.getSolution(); V w(s.w.begin(), s.w.end()); double b = s.bias; return [w, b](const V& x) { return w.size() == x.size() ? dotp(w, x) + b : std::nan(""); }; }
template <class L> inline auto dual(L& l, const D& d, int type, double param) { auto s = l.getSolution(); auto p = pts(d); V a = s.alpha; double b = s.bias; return [=](const V& x) { if (a.size() != p.size()) return std::nan(""); double f = b; for (size_t i = 0; i < p.size(); i++) f += a[i] * p[i].y * kern(type, param, p[i].x, x); return f; }; }
inline double knorm(const V& a, const D& d, int type, double param) { auto p = pts(d); double s = 0; for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < p.size(); j++) s += a[i] * a[j] * p[i].y * p[j].y * kern(type, param, p[i].x, p[j].x); return std::sqrt(std::max(0.0, s)); }
} // namespace cl
