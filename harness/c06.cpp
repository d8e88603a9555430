// C06: every sequence of dataset operations up to a depth, from several initial datasets, against a reference model.
#include "dset.hpp"
using namespace ds; using namespace vf;
struct Model { std::vector<RP> p; std::vector<int> fn; bool cls = true; bool any_order = false; };
static std::vector<double> feat(int c, int dim) { std::vector<double> x; for (int j = 0; j < dim; j++) x.push_back(c + j * 0.5 - 3); return x; }
static std::string csvfile;
// ---- initial datasets
static const char* INIT[] = {"empty", "three classes", "loaded csv", "copied class", "named features", "regression", "shuffled five", "joined", "one point"};
static void init(int k, D& d, Model& m) {
    auto ins = [&](double y, int c) { P p = mk(feat(c, 2), y); d.insertPoint(p); m.p.push_back({feat(c, 2), y, (int)m.p.size() + 1}); };
    if (k == 1) { ins(1, 90); ins(2, 91); ins(3, 92); m.fn = {1, 2}; }
    if (k == 2) { d.load(csvfile, false); m.p = {{{1.5, 2}, 2, 1}, {{3, 4}, 1, 2}, {{5, 6}, 2, 3}}; m.fn = {1, 2}; }
    if (k == 3) { D s = tagged({1, 2, 3, 2}); std::vector<int> c = {3, 2}; d.classesCopy(s, c); auto a = pts(s); m.p = {a[1], a[2], a[3]}; m.fn = {1, 2}; }
    if (k == 4) { D s = tagged({2, 1, 2}, 4); s.removeFeatures({1, 3}); d = s; for (auto& q : pts(s)) m.p.push_back(q); m.fn = {2, 4}; }
    if (k == 5) { d.setType("Regression"); m.cls = false; ins(0.5, 90); ins(-2.25, 91); ins(0.5, 92); m.fn = {1, 2}; }
    if (k == 6) { for (int i = 0; i < 5; i++) ins(1 + i % 2, 80 + i); d.shuffle(3); m.p = pts(d); m.fn = {1, 2}; }
    if (k == 7) { D s = tagged({3, 1}); d.join(s); m.p = pts(s); m.fn = {1, 2}; }
    if (k == 8) { ins(2, 90); m.fn = {1, 2}; }
}
// ---- operations
static const char* OPS[] = {"insert(1)", "insert(2)", "insert(3)", "insertKeep(id70)", "insertBadDim", "insertFrom", "removeFirst", "removeLast", "removeAbsent", "removeMiddle", "removePoints", "update0to2", "updateLastTo1", "updateNew", "join", "joinEmpty", "shuffle", "clear", "reverseClasses", "recount", "assignRound", "insertPtr", "setIndex", "relabelRecount", "joinSelf", "classesCopySelf"};
static const int NOPS = sizeof OPS / sizeof *OPS;
static bool unique_ids(const Model& m) { std::set<int> s; for (auto& p : m.p) s.insert(p.id); return s.size() == m.p.size(); }
static void ret(bool got, bool want, int op) { expectf(got == want, "op/return", [&] { return std::string(OPS[op]) + " returned " + (got ? "true" : "false"); }); }
static bool erase_id(Model& m, int id) { if (m.p.size() <= 1) return false; for (size_t i = 0; i < m.p.size(); i++) if (m.p[i].id == id) { m.p.erase(m.p.begin() + i); return true; } return false; }
// false: the operation is not applicable in this state
static bool apply(int op, D& d, Model& m, int step) {
    int n = m.p.size(); int dim = 2; auto x = feat(10 * (step + 1), dim);
    auto named = [&] { if (m.fn.empty()) m.fn = {1, 2}; };
    switch (op) {
    case 0: case 1: case 2: { ret(d.insertPoint(mk(x, op + 1)), true, op); m.p.push_back({x, double(op + 1), n + 1}); named(); break; }
    case 3: { ret(d.insertPoint(mk(x, 1, 70 + step), true), true, op); m.p.push_back({x, 1, 70 + step}); named(); break; }
    case 4: { if (!n) return false; ret(d.insertPoint(mk({1, 2, 3}, 1)), false, op); ret(d.insertPoint(mk({1}, 2)), false, op); break; }
    case 5: { D o = tagged({4, 2}); auto before = show(o); ret(d.insertPoint(o, 1), true, op); ret(d.insertPoint(o, 2), false, op); ret(d.insertPoint(o, 7), false, op); auto q = pts(o)[1]; q.id = n + 1; m.p.push_back(q); named(); expect(show(o) == before, "op/source", "the source dataset changed"); break; }
    case 6: case 7: case 9: { if (n < 1 || (op == 9 && n < 3)) return false; int id = m.p[op == 6 ? 0 : op == 7 ? n - 1 : n / 2].id; bool w = erase_id(m, id); ret(d.removePoint(id), w, op); break; }
    case 8: { ret(d.removePoint(99), false, op); ret(d.removePoint(0), false, op); ret(d.removePoint(-3), false, op); break; }
    case 10: { if (n < 2 || !unique_ids(m)) return false; std::vector<int> ids = {m.p[0].id, 99, m.p[n - 1].id, m.p[n / 2].id}; std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
        auto r = d.removePoints(ids); expect(r.size() == ids.size(), "op/return", "removePoints: wrong number of flags");
        // which one survives when all but one may go is not specified
        std::vector<int> left; for (auto& p : m.p) if (std::find(ids.begin(), ids.end(), p.id) == ids.end()) left.push_back(p.id);
        if (!left.empty()) { for (size_t i = 0; i < ids.size(); i++) { bool w = erase_id(m, ids[i]); if (i < r.size()) ret(r[i], w, op); } }
        else { expectf(d.size() == 1, "op/last", [&] { return "removing all the points must leave one: " + show(d); }); std::vector<RP> k; for (auto& p : m.p) if (d.size() && p.id == d.point(0)->Id()) k.push_back(p); m.p = k; for (size_t i = 0; i < ids.size() && i < r.size(); i++) ret(r[i], ids[i] != 99 && !(k.size() && k[0].id == ids[i]), op); }
        break; }
    case 11: { if (!n) { ret(d.updatePointValue(0, 2), false, op); break; } ret(d.updatePointValue(0, 2), true, op); m.p[0].y = 2; break; }
    case 12: { if (!n) return false; ret(d.updatePointValue(n - 1, 1), true, op); m.p[n - 1].y = 1; ret(d.updatePointValue(n, 1), false, op); break; }
    case 13: { if (n < 2) return false; double y = m.cls ? 7 + step : 0.75; ret(d.updatePointValue(n / 2, y), true, op); m.p[n / 2].y = y; break; }
    case 14: { D o = tagged({5, 3, 5}); if (!m.cls) o = tagged({5, 3, 5}, 2, "Regression"); auto before = show(o); d.join(o); for (auto& q : pts(o)) m.p.push_back(q); named(); expect(show(o) == before, "op/source", "the source dataset changed"); break; }
    case 15: { D o; d.join(o); break; }
    case 16: { d.shuffle(5 + step); auto a = pts(d), b = m.p; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); expectf(a == b, "op/shuffle", [&] { return "shuffling changed the points: " + show(d); }); if (a == b) m.p = pts(d); break; }
    case 17: { d.clear(); m.p.clear(); m.fn.clear(); expect(d.classes().empty() && d.classesDistribution().empty() && d.classesNames().empty(), "op/clear", "clear() leaves classes: " + show(d)); break; }
    case 18: { if (!m.cls || d.classes().size() < 2) return false; auto c = d.classes(); std::reverse(c.begin(), c.end()); d.setClasses(c); expect(d.classes() == c, "op/setClasses", "setClasses: other classes"); break; }
    case 19: { d.computeClassesDistribution(); break; }
    case 20: { D t; t = d; D u(t); d = u; break; }
    case 21: { auto q = std::make_shared<P>(mk(x, 2)); ret(d.insertPoint(q), true, op); m.p.push_back({x, 2, n + 1}); named(); break; }
    case 22: { if (n < 2) return false; auto v = d.getIndex(); std::rotate(v.begin(), v.begin() + 1, v.end()); d.setIndex(v); expect(d.getIndex() == v, "op/setIndex", "setIndex: other index"); break; }
    case 23: { if (n < 2) return false; double y = m.p[n - 1].y; d[0]->Y() = y; m.p[0].y = y; d.computeClassesDistribution(); break; }
    case 24: { if (!n || n > 12) return false; d.join(d); auto q = m.p; m.p.insert(m.p.end(), q.begin(), q.end()); break; }
    case 25: { if (!n || !m.cls) return false; std::vector<int> c = {(int)m.p[0].y}; d.classesCopy(d, c); std::vector<RP> q; for (auto& p : m.p) if (p.y == c[0]) q.push_back(p); m.p = q; break; }
    }
    return true;
}
static void compare(const D& d, const Model& m, int k) {
    auto a = pts(d);
    expectf(a == m.p, "op/points", [&] { return "points differ: " + show(a) + " expected " + show(m.p); });
    invariants(d, "inv", m.cls); if (m.cls) names_are_numbers(d, "inv");
    if (d.size()) expectf(d.getFeaturesNames() == m.fn, "op/fnames", [&] { return "feature names " + str(d.getFeaturesNames()) + " expected " + str(m.fn); });
    auto y = d.getLabels(); for (size_t i = 0; i < m.p.size() && i < y.size(); i++) if (y[i] != m.p[i].y) { fail("op/labels", "getLabels differs"); break; }
    if (a == m.p) for (int j = 0; j < (m.p.empty() ? 0 : 2); j++) { auto f = d.getFeature(j); for (size_t i = 0; i < m.p.size(); i++) if (f[i] != m.p[i].x[j]) { fail("op/getFeature", "getFeature differs"); break; } }
}
static void explore(int k, std::vector<int>& seq, int depth, const std::string& base) {
    if ((int)seq.size() >= depth) return;
    for (int op = 0; op < NOPS; op++) {
        D d; Model m; init(k, d, m); bool okp = true;
        for (size_t i = 0; i < seq.size() && okp; i++) okp = apply(seq[i], d, m, i);
        if (!okp) return;
        S.desc = base; for (int o : seq) S.desc += std::string(" ") + OPS[o]; S.desc += std::string(" ") + OPS[op]; publish();
        if (!apply(op, d, m, seq.size())) continue;
        compare(d, m, k); transition(); state(std::to_string(k) + show(d)); count("sequences");
        if (S.failed) { S.failed = false; continue; }
        seq.push_back(op); explore(k, seq, depth, base); seq.pop_back();
    }
}
void vf::run() {
    csvfile = S.scratch + "/init.csv"; if (!S.scratch.empty()) { std::ofstream f(csvfile); f << "2,1.5,2\n1,3,4\n2,5,6\n"; }

    for (int k = 0; k < 9; k++) {
        kase("seq", std::string("initial: ") + INIT[k], [&] { D d; Model m; init(k, d, m); compare(d, m, k); state(show(d)); });
        for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) {
            std::string base = std::string("from '") + INIT[k] + "':";
            kase("seq", base + " " + OPS[a] + " " + OPS[b], [&] {
                D d; Model m; init(k, d, m); if (!apply(a, d, m, 0)) return; compare(d, m, k); transition(); state(std::to_string(k) + show(d)); if (!apply(b, d, m, 1)) return; compare(d, m, k); transition(); state(std::to_string(k) + show(d)); count("sequences");
                std::vector<int> seq = {a, b}; explore(k, seq, (thorough() ? 4 : 3) + (k == 1 || k == 2), base);
            });
        }
    }
    // every removal position of datasets of every size, then every pair of removals
    int N = thorough() ? 40 : 24;
    for (int n = 1; n <= N; n++) for (int pos = 0; pos < n; pos++) kase("sizes", "size " + std::to_string(n) + " remove position " + std::to_string(pos), [&] {
        for (int sh = 0; sh < 3; sh++) for (int q = -1; q < n - 1; q++) {
            std::vector<int> lab; for (int i = 0; i < n; i++) lab.push_back(1 + (i * 7 + i / 3) % 4);
            D d = tagged(lab); if (sh == 1) d.shuffle(9); if (sh == 2) { auto v = d.getIndex(); std::reverse(v.begin(), v.end()); d.setIndex(v); }
            Model m; m.p = pts(d); m.fn = {1, 2};
            auto oidx = d.getIndex();
            auto rm = [&](int at) { int id = m.p[at].id; bool w = erase_id(m, id); bool g = d.removePoint(id); expect(g == w, "sizes/return", "removePoint return"); compare(d, m, 0); transition(); };
            rm(pos); if (q >= 0 && n > 1) rm(q);
            // the index keeps visiting the remaining points in the same relative order
            D e = tagged(lab); if (sh == 1) e.shuffle(9); e.setIndex(oidx); std::vector<int> order, now; auto ep = pts(e); for (int i : oidx) { int id = ep[i].id; if (std::any_of(m.p.begin(), m.p.end(), [&](auto& r) { return r.id == id; })) order.push_back(id); }
            auto dp = pts(d); for (int i : d.getIndex()) now.push_back(dp[i].id);
            expectf(now == order, "sizes/index-order", [&] { return "index visits " + str(now) + " expected " + str(order); });
            state(show(d));
        }
    });
    // removePoints of every subset (n <= 6) agrees with one removal after the other
    for (int n = 2; n <= (thorough() ? 8 : 6); n++) for (int mask = 1; mask < (1 << n); mask++) kase("subset", "removePoints n=" + std::to_string(n) + " mask=" + std::to_string(mask), [&] {
        for (int sh = 0; sh < 2; sh++) {
        std::vector<int> lab; for (int i = 0; i < n; i++) lab.push_back(1 + i % 3);
        D a = tagged(lab), b = tagged(lab); if (sh) { a.shuffle(4); b.shuffle(4); } std::vector<int> ids; for (int i = 0; i < n; i++) if (mask >> i & 1) ids.push_back(i + 1);
        auto r = a.removePoints(ids); std::vector<bool> w; for (int id : ids) w.push_back(b.removePoint(id));
        invariants(a, "subset"); invariants(b, "subset"); expect((int)a.size() == std::max(1, n - (int)ids.size()), "subset/size", "removePoints: wrong number of points left: " + show(a));
        if ((int)ids.size() < n) { expect(r == w, "subset/return", "removePoints flags"); expect(pts(a) == pts(b) && a.getIndex() == b.getIndex() && a == b, "subset/differs", "removePoints differs from removePoint: " + show(a) + " / " + show(b)); }
        else expect(std::count(r.begin(), r.end(), true) == n - 1, "subset/return", "removePoints flags");
        transition(); state(show(a)); }
    });
    // joins of every two datasets with labels of up to four classes, in every order
    auto seqs = [](int n, int k) { std::vector<std::vector<int>> r; int t = 1; for (int i = 0; i < n; i++) t *= k; for (int c = 0; c < t; c++) { std::vector<int> l; int v = c; for (int i = 0; i < n; i++) { l.push_back(1 + v % k); v /= k; } r.push_back(l); } return r; };
    int J = thorough() ? 4 : 3;
    for (int n = 0; n <= J; n++) for (auto& la : seqs(n, 4)) kase("joins", "join to " + str(la), [&] {
        for (int k = 1; k <= 3; k++) for (auto& lb : seqs(k, 4)) {
            D a = tagged(la), b = tagged(lb); Model m; m.p = pts(a); m.fn = {1, 2}; for (auto& q : pts(b)) m.p.push_back(q); auto before = show(b);
            S.desc = "join " + str(la) + " with " + str(lb);
            a.join(b); compare(a, m, 0); transition(); expect(show(b) == before, "op/source", "the source dataset changed"); state(show(a));
        }
    });
}
