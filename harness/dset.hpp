// Reference view of a dataset and the structural invariants every dataset must satisfy.
#pragma once
#include "seq.hpp"
#include "ufjfmltk/core/Data.hpp"
namespace ds {
using D = mltk::Data<double>; using P = mltk::Point<double>;
struct RP { std::vector<double> x; double y; int id; double alpha = 0; bool operator==(const RP& o) const { return x == o.x && y == o.y && id == o.id && alpha == o.alpha; } bool operator<(const RP& o) const { return std::tie(id, y, x, alpha) < std::tie(o.id, o.y, o.x, o.alpha); } };
inline RP rp(const P& p) { RP r; r.x.assign(p.begin(), p.end()); r.y = p.Y(); r.id = p.Id(); r.alpha = p.Alpha(); return r; }
inline std::vector<RP> pts(const D& d) { std::vector<RP> v; for (size_t i = 0; i < d.size(); i++) v.push_back(rp(*d.point(i))); return v; }
inline std::string show(const std::vector<RP>& v) { std::ostringstream o; for (auto& p : v) o << "#" << p.id << vf::str(p.x) << "=" << p.y << (p.alpha ? "~" + vf::num(p.alpha) : std::string()) << " "; return o.str(); }
inline std::string show(const D& d) { std::ostringstream o; o << show(pts(d)) << "| cl" << vf::str(d.classes()) << " n" << vf::str(d.classesNames()) << " dist" << vf::str(d.classesDistribution()) << " idx" << vf::str(d.getIndex()) << " f" << vf::str(d.getFeaturesNames()) << " dim" << d.dim() << " e" << d.isEmpty() << " t" << d.getType() << " N" << d.isNormalized() << " " << d.name(); return o.str(); }
inline P mk(std::vector<double> x, double y, int id = 0) { P p(x.size()); for (size_t i = 0; i < x.size(); i++) p[i] = x[i]; p.Y() = y; p.Id() = id; return p; }
inline D make(const std::vector<std::vector<double>>& xs, const std::vector<double>& ys, const std::string& type = "Classification") { D d; d.setType(type); for (size_t i = 0; i < xs.size(); i++) d.insertPoint(mk(xs[i], ys[i])); return d; }
// n points of dimension dim with the given labels and features all different
inline D tagged(const std::vector<int>& labels, int dim = 2, const std::string& type = "Classification") { D d; d.setType(type); for (size_t i = 0; i < labels.size(); i++) { std::vector<double> x; for (int j = 0; j < dim; j++) x.push_back((i + 1) * 10 + j + 0.25); auto p = mk(x, labels[i]); p.Alpha() = 0.125 * (i + 1); d.insertPoint(p); } return d; }

// structural invariants; labels/classes only when the dataset is a classification one
inline void invariants(const D& d, const std::string& key, bool classes = true, bool allow_missing_fnames = false) {
    size_t n = d.size(); auto ctx = [&](const char* m) { return std::string(m) + ": " + show(d); };
    vf::expectf(d.points().size() == n && (size_t)std::distance(d.begin(), d.end()) == n && d.getLabels().size() == n, key + "/size", [&] { return ctx("sizes disagree"); });
    vf::expectf(d.isEmpty() == (n == 0), key + "/empty", [&] { return ctx("isEmpty disagrees with size"); });
    for (size_t i = 0; i < n; i++) if (d.point(i)->size() != d.dim()) { vf::fail(key + "/dim", ctx("a point has another dimension")); break; }
    auto idx = d.getIndex(); auto s = idx; std::sort(s.begin(), s.end()); bool ok = s.size() == n; for (size_t i = 0; ok && i < n; i++) ok = s[i] == (int)i;
    vf::expectf(ok, key + "/index", [&] { return ctx("the index is not a permutation of the positions"); });
    if (n && !allow_missing_fnames) vf::expectf(d.getFeaturesNames().size() == d.dim(), key + "/fnames", [&] { return ctx("number of feature names differs from the dimension"); });
    if (!classes) return;
    auto c = d.classes(); auto nm = d.classesNames(); auto di = d.classesDistribution();
    vf::expectf(std::set<int>(c.begin(), c.end()).size() == c.size(), key + "/classes", [&] { return ctx("duplicate classes"); });
    vf::expectf(nm.size() == c.size() && di.size() == c.size(), key + "/classes", [&] { return ctx("classes, names and distribution have different lengths"); });
    std::map<int, size_t> cnt; for (size_t i = 0; i < n; i++) cnt[(int)d.point(i)->Y()]++;
    for (auto& k : cnt) if (std::find(c.begin(), c.end(), k.first) == c.end()) { vf::fail(key + "/classes", ctx("a label is missing in the classes")); break; }
    for (size_t i = 0; i < std::min(c.size(), di.size()); i++) if (di[i] != (cnt.count(c[i]) ? cnt[c[i]] : 0)) { vf::fail(key + "/distribution", ctx("the distribution differs from the labels")); break; }
}
// names[i] must be the decimal text of classes[i] (datasets with integer class names only)
inline void names_are_numbers(const D& d, const std::string& key) { auto c = d.classes(); auto nm = d.classesNames(); for (size_t i = 0; i < std::min(c.size(), nm.size()); i++) if (nm[i] != std::to_string(c[i])) { vf::fail(key + "/names", "class names not aligned with the classes: " + show(d)); return; } }
} // namespace ds
namespace ds {
// parts cover the points of src exactly once (points identified by their first feature, unique in tagged datasets)
inline void partition(const D& src, const std::vector<const D*>& parts, bool keepIds, const std::string& key, bool sameAttrs = true) {
    std::map<double, RP> m; for (auto& p : pts(src)) m[p.x[0]] = p;
    std::set<double> seen; size_t total = 0;
    for (auto* d : parts) { size_t k = 0; for (auto& p : pts(*d)) { total++; k++;
        auto it = m.find(p.x[0]); if (it == m.end()) { vf::fail(key + "/foreign", "a part contains a point which is not in the dataset: " + show(*d)); return; }
        if (!seen.insert(p.x[0]).second) { vf::fail(key + "/twice", "a point is in two places: " + show(*d)); return; }
        RP e = it->second; if (!keepIds) e.id = k; if (!(p == e)) { vf::fail(key + "/changed", "a point changed: " + show({p}) + " expected " + show({e})); return; } }
        invariants(*d, key, src.isClassification());
        if (sameAttrs && d->size()) { vf::expect(d->getFeaturesNames() == src.getFeaturesNames(), key + "/fnames", "a part has other feature names: " + show(*d)); vf::expect(d->isClassification() == src.isClassification(), key + "/type", "a part is of another kind: " + show(*d)); } }
    vf::expectf(total == src.size(), key + "/lost", [&] { std::string s = "the parts hold " + std::to_string(total) + " of " + std::to_string(src.size()) + " points:"; for (auto* d : parts) s += " {" + show(*d) + "}"; return s; });
}
inline void balanced(const D& src, const std::vector<const D*>& parts, bool perClass, const std::string& key) {
    auto chk = [&](auto f, const std::string& k) { size_t lo = -1, hi = 0; for (auto* d : parts) { size_t c = f(*d); lo = std::min(lo, c); hi = std::max(hi, c); } if (hi - lo > 1) { std::string s; for (auto* d : parts) s += " {" + show(*d) + "}"; vf::fail(k, "parts differ by more than one point:" + s); } };
    chk([](const D& d) { return d.size(); }, key + "/sizes");
    if (perClass) { std::set<double> l; for (auto& p : pts(src)) l.insert(p.y); for (double c : l) chk([c](const D& d) { size_t n = 0; for (auto& p : pts(d)) n += p.y == c; return n; }, key + "/stratified"); }
}
inline D patterned(int n, int pat, int dim = 2) { std::vector<int> l; for (int i = 0; i < n; i++) switch (pat) { case 0: l.push_back(1 + i % 3); break; case 1: l.push_back(i % 7 == 0 ? 1 : -1); break; case 2: l.push_back(1); break; case 3: l.push_back(i * 5 / n); break; case 4: l.push_back(i < n - 1 ? 2 : 9); break; default: l.push_back((i * i + i / 4) % 11 - 3); } return tagged(l, dim); }
} // namespace ds
