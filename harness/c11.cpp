// C11: over-sampling (SMOTE, borderline SMOTE) and sampling of datasets.
#include "dset.hpp"
#include "ufjfmltk/core/Sampling.hpp"
using namespace ds; using namespace vf;
static double dist(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
static bool on_segment(const std::vector<double>& s, const std::vector<double>& a, const std::vector<double>& b) {
    double num = 0, den = 0; for (size_t i = 0; i < a.size(); i++) { num += (s[i] - a[i]) * (b[i] - a[i]); den += (b[i] - a[i]) * (b[i] - a[i]); }
    double t = den ? num / den : 0; if (t < -1e-9 || t > 1 + 1e-9) return false; for (size_t i = 0; i < a.size(); i++) if (std::abs(s[i] - (a[i] + t * (b[i] - a[i]))) > 1e-9 * (1 + std::abs(s[i]))) return false; return true;
}
static int extreme_class(const std::vector<RP>& v, bool smallest) { std::vector<double> c; std::map<double, long> n; for (auto& p : v) { if (!n.count(p.y)) c.push_back(p.y); n[p.y]++; } double best = c[0]; for (double x : c) if (smallest ? n[x] < n[best] : n[x] > n[best]) best = x; return best; }
// synth must be a possible outcome of SMOTE with k neighbours on the points src
static void check_synth(const std::vector<RP>& src, const std::vector<RP>& synth, size_t k, const std::string& key) {
    if (src.empty()) { expect(synth.empty(), key + "/count", "synthetic points from nothing"); return; }
    int c = extreme_class(src, true); std::vector<const RP*> m; for (auto& p : src) if (p.y == c) m.push_back(&p);
    struct Slot { const RP* z; std::vector<const RP*> nb; }; std::vector<Slot> slots;
    for (auto* z : m) { std::map<double, std::vector<const RP*>> by; for (auto* o : m) { double d = dist(z->x, o->x); if (d > 0) by[d].push_back(o); } size_t r = 0; for (auto& b : by) { if (r++ >= k) break; slots.push_back({z, b.second}); } }
    if (!expectf(slots.size() == synth.size(), key + "/count", [&] { return std::to_string(synth.size()) + " synthetic points, expected " + std::to_string(slots.size()) + ": " + show(synth); })) return;
    // every synthetic point is matched with a slot of its own
    std::vector<std::vector<int>> adj(synth.size()); for (size_t i = 0; i < synth.size(); i++) { if (!expectf(synth[i].y == c, key + "/label", [&] { return "a synthetic point is not of the minority class: " + show(synth); })) return;
        for (size_t s = 0; s < slots.size(); s++) for (auto* nb : slots[s].nb) if (on_segment(synth[i].x, slots[s].z->x, nb->x)) { adj[i].push_back(s); break; }
        if (!expectf(!adj[i].empty(), key + "/segment", [&] { return "a synthetic point is on no segment between a minority point and one of its nearest minority neighbours: " + show({synth[i]}); })) return; }
    std::vector<int> who(slots.size(), -1); size_t matched = 0; for (size_t i = 0; i < synth.size(); i++) { std::vector<char> seen(slots.size()); std::function<bool(int)> tr = [&](int u) { for (int s : adj[u]) if (!seen[s]) { seen[s] = 1; if (who[s] < 0 || tr(who[s])) { who[s] = u; return true; } } return false; }; matched += tr(i); }
    expectf(matched == synth.size(), key + "/neighbours", [&] { return "not every neighbour of every minority point contributes one synthetic point: " + show(synth); }); count("synthetic points", synth.size());
}
static std::vector<RP> danger(const std::vector<RP>& v, size_t m) {
    int maj = extreme_class(v, false); std::vector<RP> out;
    for (auto& z : v) { std::map<double, const RP*> by; for (auto& o : v) { double d = dist(z.x, o.x); if (d > 0) by[d] = &o; } size_t r = 0, mm = 0; for (auto& b : by) { if (r++ >= m) break; mm += b.second->y == maj; } if (mm >= m / 2 && mm < m) out.push_back(z); }
    return out;
}
static void smote(const D& src, size_t k, size_t seed, size_t m, const std::string& key) {
    D d = src.copy(), e = src.copy(); auto before = pts(src); D r, r2;
    if (m) { mltk::BorderlineSMOTEOne<double> s(k, 0.1, m, seed), s2(k, 0.1, m, seed); r = s(d); r2 = s2(e); } else { mltk::SMOTE<double> s(k, 0.1, seed), s2(k, 0.1, seed); r = s(d); r2 = s2(e); }
    auto after = pts(d); nontrivial(show(src) + std::to_string(k) + "/" + std::to_string(seed) + "/" + std::to_string(m));
    if (!expect(after.size() >= before.size() && std::equal(before.begin(), before.end(), after.begin()), key + "/originals", "the existing points changed: " + show(d))) return;
    expect(show(r) == show(d), key + "/result", "the returned dataset differs from the over-sampled one"); invariants(d, key); expect(d.getFeaturesNames() == src.getFeaturesNames(), key + "/fnames", "feature names changed"); expect(d.classes() == src.classes(), key + "/classes", "classes changed");
    for (size_t i = before.size(); i < after.size(); i++) expect(after[i].id == (int)i + 1, key + "/ids", "ids of the synthetic points");
    std::vector<RP> synth(after.begin() + before.size(), after.end());
    if (seed) expect(show(e) == show(d), key + "/seed", "the same seed gives other points");
    check_synth(m ? danger(before, m) : before, synth, k, key);
}
static void sampling(D& d, size_t s, bool repl, int seed, const std::string& key) {
    auto before = show(d); D a = d.sampling(s, repl, seed); nontrivial(before + "s" + std::to_string(s) + (repl ? "r" : "") + std::to_string(seed));
    expect(show(d) == before, key + "/source", "sampling changed the dataset"); invariants(a, key);
    std::map<double, RP> m; for (auto& p : pts(d)) m[p.x[0]] = p; std::map<double, size_t> n, c; for (auto& p : pts(d)) n[p.y]++; std::set<double> seen; size_t i = 0;
    for (auto& p : pts(a)) { i++; auto it = m.find(p.x[0]); if (it == m.end()) { fail(key + "/foreign", "a sampled point is not in the dataset: " + show(a)); return; } RP e = it->second; e.id = i; if (!(e == p)) { fail(key + "/changed", "a sampled point changed: " + show({p})); return; } if (!seen.insert(p.x[0]).second && !repl) { fail(key + "/twice", "sampling without replacement repeats a point: " + show(a)); return; } c[p.y]++; }
    for (auto& k : n) { double share = double(k.second) * s / d.size(); expectf(c[k.first] >= 1 && c[k.first] <= std::max<size_t>(k.second, repl ? s : 0) && std::abs(c[k.first] - share) <= 1 + 1e-9, key + "/share", [&] { return "class " + num(k.first) + " has " + std::to_string(c[k.first]) + " points in a sample of " + std::to_string(s) + ", its share is " + num(share); }); }
    if (a.size()) expect(a.getFeaturesNames() == d.getFeaturesNames(), key + "/fnames", "feature names changed");
    if (seed) expect(show(d.sampling(s, repl, seed)) == show(a), key + "/seed", "the same seed gives another sample");
}
void vf::run() {
    static const double lay[4][8][2] = {{{0, 0}, {1, 0.3}, {2.7, 1.1}, {-1.4, 3.3}, {5.2, -2.6}, {0.9, 7.7}, {-4.1, -3.9}, {9.3, 2.2}}, {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 0}, {5, 0}, {6, 0}, {7, 0}}, {{1, 1}, {1, 1}, {0, 1}, {1, 0}, {0, 1}, {2, 2}, {1, 1}, {0, 0}}, {{-1, -1}, {-1, 1}, {1, -1}, {1, 1}, {0, 0}, {-2, 0}, {0, 2}, {0.5, 0.5}}};
    int N = thorough() ? 8 : 6;
    for (int n = 1; n <= N; n++) for (int L = 0; L < 4; L++) for (int base = 2; base <= (n <= 5 ? 3 : 2); base++) product(n, base, [&](const std::vector<int>& l) {
        kase("smote", "layout " + std::to_string(L) + " labels " + str(l), [&] {
            std::vector<std::vector<double>> xs; std::vector<double> ys; for (int i = 0; i < n; i++) { xs.push_back({lay[L][i][0], lay[L][i][1]}); ys.push_back(base == 2 ? 1 - 2 * l[i] : 3 * l[i] + 1); }
            D d = make(xs, ys); for (size_t k = 1; k <= 4; k++) for (size_t seed : {0, 1, 42}) { smote(d, k, seed, 0, "smote"); if (L == 0) for (size_t m = 1; m <= 5; m++) smote(d, k, seed, m, "borderline"); }
        }); });
    for (int n = 8; n <= (thorough() ? 120 : 48); n++) for (int pat = 0; pat < 6; pat++) kase("smote", "size " + std::to_string(n) + " pattern " + std::to_string(pat), [&] {
        D d = patterned(n, pat, 2); for (size_t i = 0; i < d.size(); i++) { (*d.point(i))[0] = std::fmod((i + 1) * 7.318, 23.1) + 0.001 * i * i; (*d.point(i))[1] = std::fmod((i + 3) * 3.77, 11.3); }
        if (n % 3 == 0) d.setFeaturesNames({4, 9});
        for (size_t k : {1, 3, 5, 10}) { smote(d, k, n, 0, "smote"); for (size_t m : {1, 3, 5, 8}) smote(d, k, n, m, "borderline"); } });
    for (int n = 1; n <= N; n++) for (int base = 1; base <= 3; base++) product(n, base, [&](const std::vector<int>& l) { kase("sampling", "labels " + str(l), [&] {
        auto m = l; for (auto& x : m) x = base == 2 ? 1 - 2 * x : x * 2 + 1; D d = tagged(m); for (size_t s = 1; s <= d.size(); s++) for (int r = 0; r < 2; r++) for (int seed : {0, 1, 42}) sampling(d, s, r, seed, "sampling"); }); });
    for (int n = 6; n <= (thorough() ? 300 : 100); n++) for (int pat = 0; pat < 6; pat++) kase("sampling", "sample of " + std::to_string(n) + " pattern " + std::to_string(pat), [&] { D d = patterned(n, pat, 1 + n % 3); if (n % 2) d.shuffle(3); 
        for (size_t s : {1, n / 4 + 1, n / 2, n - 1, n}) for (int r = 0; r < 2; r++) sampling(d, s, r, n, "sampling"); });
}
