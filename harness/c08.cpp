// C08: splits of datasets: every small label sequence and every size up to a bound, all split counts and flags.
#include "dset.hpp"
using namespace ds; using namespace vf;
static void one(D& d, int k, bool strat, bool keep, size_t seed, const std::string& key) {
    auto before = show(d);
    auto parts = d.splitSample(k, strat, keep, seed); std::vector<const D*> v; for (auto& p : parts) v.push_back(&p);
    expect((int)parts.size() == k, key + "/count", "wrong number of parts"); count("splits"); nontrivial(before + std::to_string(k * 4 + strat * 2 + keep) + "/" + std::to_string(seed));
    partition(d, v, keep, key); balanced(d, v, strat && d.isClassification(), key);
    expect(show(d) == before, key + "/source", "splitting changed the dataset: " + show(d));
    if (seed) { auto again = d.splitSample(k, strat, keep, seed); bool same = again.size() == parts.size(); for (size_t i = 0; same && i < parts.size(); i++) same = show(again[i]) == show(parts[i]); expect(same, key + "/seed", "the same seed gives another split"); }
}
static void all(D& d, int kmax, const std::string& key) {
    for (int k = 1; k <= kmax; k++) for (int strat = 0; strat < 2; strat++) for (int keep = 0; keep < 2; keep++) for (size_t seed : {0, 1, 42}) one(d, k, strat, keep, seed, key);
    if (d.isClassification()) for (int keep = 0; keep < 2; keep++) {
        auto before = show(d); auto parts = d.splitByClasses(keep); std::vector<const D*> v; for (auto& p : parts) v.push_back(&p);
        auto cl = d.classes(); expect(parts.size() == cl.size(), "byclass/count", "wrong number of parts"); partition(d, v, keep, "byclass"); count("splits");
        for (size_t i = 0; i < parts.size(); i++) { auto q = pts(parts[i]); for (auto& p : q) expect(i < cl.size() && p.y == cl[i], "byclass/class", "a point is in the part of another class: " + show(parts[i]));
            // order within the class is kept
            std::vector<double> a, b; for (auto& p : q) a.push_back(p.x[0]); for (auto& p : pts(d)) if (i < cl.size() && p.y == cl[i]) b.push_back(p.x[0]); expect(a == b, "byclass/order", "the order within a class changed: " + show(parts[i])); }
        expect(show(d) == before, "byclass/source", "splitting changed the dataset: " + show(d));
    }
}
void vf::run() {
    int N = thorough() ? 7 : 5;
    for (int n = 1; n <= N; n++) product(n, 3, [&](const std::vector<int>& l) { kase("split", "labels " + str(l), [&] {
        for (int var = 0; var < 3; var++) { std::vector<int> m = l; for (auto& x : m) x = var == 0 ? x + 1 : var == 1 ? 1 - 2 * x : 10 - 9 * x; D d = tagged(m); if (var == 1) { d.shuffle(5); } if (var == 2) { d.setFeaturesNames({3, 8}); for (size_t i = 0; i < d.size(); i++) { d.point(i)->Alpha() = 0.5 + i; d.point(i)->Id() = 100 + i * 3; } } all(d, std::min(n + 2, 6), "split"); }
    }); });
    for (int n = 1; n <= (thorough() ? 200 : 64); n++) for (int pat = 0; pat < 6; pat++) kase("large", "size " + std::to_string(n) + " pattern " + std::to_string(pat), [&] {
        D d = patterned(n, pat, 1 + n % 3); if (n % 2) d.shuffle(n);
        for (int k : {2, 3, 5, 7, 10, 16}) for (int strat = 0; strat < 2; strat++) for (int keep = 0; keep < 2; keep++) one(d, k, strat, keep, n, "large");
    });
    std::vector<std::vector<int>> many = {{10, 11, 12, 13, 14, 15, 16, 17, 18, 19}, {1, 10, 100, 1000, 10000, 100000}, {-1, 1, -10, 10, -100, 100}, {0, 256, 512, 65536, -256, 1 << 30}, {2147483647, -2147483647, 2147483646, 0}, {7, 7, 7, 70, 77, 777}}; { std::vector<int> l; for (int i = 0; i < 40; i++) l.push_back(i * 3 - 20); many.push_back(l); l.clear(); for (int i = 0; i < 300; i++) l.push_back(i); many.push_back(l); }
    for (size_t w = 0; w < many.size(); w++) for (int per : {1, 2, 3, 5}) kase("many classes", "labels " + std::to_string(w) + ", " + std::to_string(per) + " points of each", [&] { std::vector<int> l; for (size_t i = 0; i < many[w].size() * per; i++) l.push_back(many[w][per == 3 ? i / per : (i * (per == 2 ? 1 : 7)) % many[w].size()]); D d = tagged(l); if (l.size() > 50) { for (int k : {2, 3, 7}) for (int strat = 0; strat < 2; strat++) one(d, k, strat, w % 2, 3, "many"); } else all(d, 4, "many"); });
    for (int n = 1; n <= 20; n++) kase("regression", "regression size " + std::to_string(n), [&] { D d; d.setType("Regression"); for (int i = 0; i < n; i++) d.insertPoint(mk({i + 0.5, 1. * i * i}, i * 0.75)); d.setFeaturesNames({2, 6}); all(d, 8, "regression"); });
}
