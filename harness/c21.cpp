// C21: k-means ends in a fixed point: nearest centers, centers in the means, a partition of the samples.
#include "dset.hpp"
#include "ufjfmltk/Clusterer.hpp"
using namespace ds; using namespace vf; using V = std::vector<double>; using VV = std::vector<V>;
template <class M = mltk::metrics::dist::Euclidean<double>> using KM = mltk::clusterer::KMeans<double, M>;
static double sq(const V& a, const V& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return s; }
static double man(const V& a, const V& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += std::abs(a[i] - b[i]); return s; }
static V vec(const P& p) { return V(p.begin(), p.end()); }
template <class L, class F> static std::string judge(L& l, const D& d, size_t k, F dist, bool means, const std::string& key) {
    auto ctx = [&] { std::string s = " on " + show(d) + " centers"; for (auto& c : l.centers()) s += str(vec(c)); return s; };
    auto cl = l.clusters(); auto cs = l.centers(); size_t n = d.size(); auto p = pts(d); std::string out; if (!expectf(cl.size() == k && cs.size() == k, key + "/count", [&] { return std::to_string(cl.size()) + " clusters and " + std::to_string(cs.size()) + " centers, asked for " + std::to_string(k); })) return "";
    std::vector<int> of(n, -1); bool ok = true; for (size_t c = 0; c < k; c++) for (size_t i : cl[c]) { if (i >= n || of[i] >= 0) ok = false; else of[i] = c; } for (int x : of) ok &= x >= 0; if (!expectf(ok, key + "/partition", [&] { return "the clusters are not a partition of the positions" + ctx(); })) return "";
    auto nearest = [&](const V& x, size_t c, const std::string& kk) { double m = 1e300; for (auto& q : cs) m = std::min(m, dist(x, vec(q))); double at = c < k ? dist(x, vec(cs[c])) : 1e300; expectf(at <= m + 1e-9 * (1 + m), key + kk, [&] { return str(x) + " is given to cluster " + std::to_string(c) + " at " + num(at) + ", the nearest center is at " + num(m) + ctx(); }); };
    for (auto& c : cs) { expect(c.size() == d.dim(), key + "/dim", "a center has another dimension"); out += str(vec(c)); if (c.size() != d.dim()) return ""; }
    for (size_t i = 0; i < n; i++) { nearest(p[i].x, of[i], "/cluster"); nearest(p[i].x, (size_t)l.evaluate(mk(p[i].x, 0)), "/evaluate"); out += " " + std::to_string(of[i]); }
    for (size_t i = 0; i < std::min<size_t>(n, 6); i++) { V x = p[i].x; for (size_t j = 0; j < x.size(); j++) x[j] = 1.4 * x[j] + 0.3 - 0.1 * j; nearest(x, (size_t)l.evaluate(mk(x, 0)), "/evaluate"); }
    if (means) for (size_t c = 0; c < k; c++) { V m(d.dim(), 0); size_t cnt = 0; for (size_t i = 0; i < n; i++) if (of[i] == (int)c) { cnt++; for (size_t j = 0; j < m.size(); j++) m[j] += p[i].x[j]; } if (cnt) { for (double& x : m) x /= cnt; expectf(sq(m, vec(cs[c])) < 1e-6, key + "/mean", [&] { return "center " + std::to_string(c) + " is not the mean " + str(m) + " of its cluster" + ctx(); }); } else { double lo = 1e300; for (size_t j = 0; j < m.size(); j++) { double a = 1e300, b = -1e300; for (auto& q : p) { a = std::min(a, q.x[j]); b = std::max(b, q.x[j]); } expectf(cs[c][j] >= a - 1e-9 && cs[c][j] <= b + 1e-9, key + "/empty", [&] { return "the center of an empty cluster lies outside of the data" + ctx(); }); } (void)lo; } }
    auto c2 = l.clusters(); bool same = true; for (size_t c = 0; c < k; c++) same &= c2[c].X() == cl[c].X(); expect(same, key + "/clusters-twice", "asking for the clusters again gives others"); count("clusterings"); return out;
}
template <class L> static std::string once(L& l, const D& d, size_t k, const std::string& key) { auto before = show(d); l.setMaxTime(1e12); expect(l.train(), key, "training fails"); transition(); auto s = judge(l, d, k, sq, true, key); expectf(show(d) == before, key + "/data", [&] { return "the samples changed from " + before + " to " + show(d); }); return s; }
static std::set<V> distinct(const D& d) { std::set<V> s; for (auto& p : pts(d)) s.insert(p.x); return s; }
static void all(const D& d, const D& e, size_t kmax, int seeds, const std::string& tag) {
    nontrivial(show(d));
    for (size_t k = 1; k <= kmax; k++) for (std::string init : {"random", "kmeanspp"}) { std::string key = tag + "/" + init; std::set<std::string> outs;
        for (int seed = 0; seed <= seeds; seed++) { KM<> l(d, k, init, seed, 0); auto a = once(l, *l.getSamples(), k, key + "/train"); outs.insert(a);
            if (seed) { KM<> m(d, k, init, seed, 0); auto b = once(m, *m.getSamples(), k, key + "/train"); expectf(a == b, key + "/seed", [&] { return "the same seed gives " + a + " and " + b + " on " + show(d); }); }
            if (k == 2 && init == "kmeanspp" && distinct(d).size() >= 2) { auto c = l.clusters(); expectf(c[0].size() && c[1].size(), key + "/two", [&] { return "a cluster is empty on " + show(d); }); }
            if (seed <= 1) { auto b = once(l, *l.getSamples(), k, key + "/again"); if (seed) expect(a == b, key + "/seed", "training again with the same seed gives another result"); KM<> cp(l); cp.setSamples(e); once(cp, *cp.getSamples(), k, key + "/copy"); auto j = judge(l, *l.getSamples(), k, sq, true, key + "/original"); expect(j == b, key + "/copy-original", "training a copy changes the original"); l.setSamples(mltk::make_data<double>(e)); once(l, *l.getSamples(), k, key + "/other"); l.setSamples(d); auto f = once(l, *l.getSamples(), k, key + "/back"); if (seed) expect(f == b, key + "/seed", "training again on the first samples gives another result"); l.setSeed(seed + 3); l.train(); KM<> g(d, k, init, seed + 3, 0); g.setMaxTime(1e12); g.train(); l.clusters(); expect(judge(l, *l.getSamples(), k, sq, true, key + "/reseeded") == judge(g, *g.getSamples(), k, sq, true, key + "/reseeded"), key + "/reseeded", "a seed set later gives another result than one given first"); } } 
        for (auto& o : outs) state(o + show(d)); }
    { KM<mltk::metrics::dist::Manhattan<double>> l(d, 2, "random", 3, 0); l.setMaxTime(20); l.train(); judge(l, *l.getSamples(), 2, man, false, tag + "/manhattan"); }
}
void vf::run() {
    D e1 = make({{0, 0, 1}, {2, 1, 0}, {5, 5, 5}, {5, 4, 5}}, {1, 1, 2, 2}), e2 = make({{0}, {1}, {7}}, {1, 2, 1}); int s = thorough() ? 8 : 4;
    for (int n = 1; n <= (thorough() ? 6 : 5); n++) multisets(n, 6, [&](const std::vector<int>& id) { kase("line", "line " + str(id), [&] { VV xs; V ys; for (int i : id) { xs.push_back({V{-3, -1, 0, 0.5, 2, 7}[i]}); ys.push_back(i % 2); } if (n % 2) { std::reverse(xs.begin(), xs.end()); } D d = make(xs, ys); if (n > 3) d.shuffle(n); all(d, n % 2 ? e1 : e2, std::min(n + 1, 4), s, "line"); }); });
    for (int n = 2; n <= (thorough() ? 6 : 5); n++) multisets(n, 9, [&](const std::vector<int>& id) { kase("grid", "grid " + str(id), [&] { VV xs; V ys; for (int i : id) { xs.push_back({i % 3 * 1.0, i / 3 * 1.5 - 1}); ys.push_back(1); } D d = make(xs, ys, n % 2 ? "Regression" : "Classification"); all(d, n % 2 ? e2 : e1, 3, n > 3 ? 2 : s, "grid"); }); });
    for (int n = 7; n <= (thorough() ? 150 : 60); n += n % 5 + 1) for (int dim = 1; dim <= 5; dim++) for (int pat = 0; pat < 3; pat++) kase("size", "size " + std::to_string(n) + " dim " + std::to_string(dim) + " pattern " + std::to_string(pat), [&] { VV xs; V ys; for (int i = 0; i < n; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(pat == 2 ? (i * (j + 3)) % 7 : 2 * std::sin(i * (j + 1) * 1.7 + j * j) + (pat ? 10 * (i % 4) * (j % 2 ? -1 : 1) : 0)); xs.push_back(x); ys.push_back(i % 3); } D d = make(xs, ys); all(d, e1, 5, 2, "size");
        if (pat == 1) { int hit = 0; for (int seed = 1; seed <= 30; seed++) { KM<> l(d, 4, "kmeanspp", seed, 0); l.setMaxTime(1e12); l.train(); auto c = l.clusters(); bool ok = true; for (auto& q : c) { std::set<int> s; for (size_t i : q) s.insert(i % 4); ok &= s.size() == 1; } hit += ok; } expect(hit > 0, "size/separated", "four well separated groups are not found with any of 30 seeds"); } });
}
