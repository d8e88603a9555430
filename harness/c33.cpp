// C33: training stops at its limits, wherever they cut it, and the model stays a faithful one.
#include "cls.hpp"
#include "ufjfmltk/Regressor.hpp"
#include "ufjfmltk/Clusterer.hpp"
#include "ufjfmltk/core/Learner.hpp"
// the clock of the learners: every reading is one millisecond later than the one before
static long vf_ms = 0;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(++vf_ms * 1000000)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(++vf_ms * 1000000)); }
} } }
using namespace ds; using namespace vf; using namespace cl; namespace mc = mltk::classifier;
using L = mltk::Learner<double>; using LP = std::shared_ptr<L>;
enum { IT, UP, EP, TI }; static const char* kinds[] = {"iterations", "updates", "epochs", "time"};
struct Algo { std::string name; std::function<LP(const D&)> mk; std::vector<int> lim; int dual = -1; double param = 0; int needs = 0; int base = 1000000000; bool blind = false; }; // needs: 0 linear separability, 1 no contradictions, 2 nothing
static const int BIG = 1000000000;
static void set(L& l, int kind, int v) { if (kind == IT) l.setMaxIterations(v); if (kind == UP) l.setMaxUpdates(v); if (kind == EP) l.setMaxEpochs(v); if (kind == TI) l.setMaxTime(v); }
static LP fresh(const Algo& a, const D& d) { LP l = a.mk(d); l->setVerbose(0); l->setSeed(7); for (int k : {IT, UP, EP, TI}) set(*l, k, k == IT ? a.base : BIG); return l; }
static std::string sol(L& l) { auto f = [](auto* c) -> std::string { if (!c) return ""; auto s = c->getSolution(); return "w" + str(V(s.w.begin(), s.w.end())) + " b" + num(s.bias) + " a" + str(s.alpha) + " m" + num(s.margin); }; std::string r = f(dynamic_cast<mc::Classifier<double>*>(&l)) + f(dynamic_cast<mltk::regressor::Regressor<double>*>(&l)); if (auto k = dynamic_cast<mltk::clusterer::KMeans<double>*>(&l)) for (auto& c : k->centers()) r += str(V(c.begin(), c.end())); return r; }
static std::function<double(const V&)> value(const Algo& a, L& l, const D& d) { if (auto c = dynamic_cast<mc::Classifier<double>*>(&l)) { if (a.dual >= 0) return dual(*c, d, a.dual, a.param); return linear(*c); } if (auto c = dynamic_cast<mltk::regressor::Regressor<double>*>(&l)) return linear(*c); return nullptr; }
// the model is a faithful one: answers by its solution, success means what it says, the samples are as they were
static void faithful(const Algo& a, L& l, const D& d, bool r, int sep, const std::string& before, const std::string& key, const std::string& how) {
    expectf(strip(d) == before, key + "/data", [&] { return how + ": training changed the samples " + before + " to " + strip(d); });
    if (auto k = dynamic_cast<mltk::clusterer::KMeans<double>*>(&l)) { VV c; for (auto& p : k->centers()) c.push_back(V(p.begin(), p.end())); for (auto& q : queries(d)) { double best = 1e300; auto dd = [&](const V& x) { double s = 0; for (size_t i = 0; i < x.size(); i++) s += (x[i] - q[i]) * (x[i] - q[i]); return s; }; for (auto& x : c) best = std::min(best, dd(x)); size_t g = l.evaluate(mk(q, 0)); expect(g < c.size() && dd(c[g]) <= best + 1e-9, key + "/nearest", how + ": the answer is not a nearest center"); }
        std::multiset<size_t> m; for (auto& g : k->clusters()) for (auto i : g) m.insert(i); bool ok = m.size() == d.size(); for (size_t i = 0; i < d.size(); i++) ok &= m.count(i) == 1; expect(ok, key + "/members", how + ": the clusters do not partition the samples"); return; }
    auto f = value(a, l, d); bool cls = dynamic_cast<mc::Classifier<double>*>(&l);
    for (auto& q : queries(d)) { double e = f(q), g = l.evaluate(mk(q, 0), true); expectf(close(e, g, 1e-7), key + "/value", [&] { return how + ": raw value " + num(g) + " at " + str(q) + ", the reported solution gives " + num(e) + " on " + show(d); }); double c = l.evaluate(mk(q, 0), false); if (cls && std::abs(e) > 1e-9) expectf(c == (e > 0 ? 1 : -1), key + "/class", [&] { return how + ": class " + num(c) + " at " + str(q) + " where the raw value is " + num(e); }); }
    if (!cls) return; expectf(!r || sep != 0, key + "/success", [&] { return how + ": training succeeds on data which cannot be separated " + show(d); });
    if (r) for (auto& p : pts(d)) { double m = p.y * f(p.x); expectf(m > -1e-9, key + "/success", [&] { return how + ": training reports success, but y*f = " + num(m) + " for " + show({p}) + " of " + show(d); }); }
}
static void cut(const Algo& a, const D& src, const D& other, int sep, int sepo) {
    auto bef = strip(src); bool nested = a.name.rfind("ima", 0) == 0; size_t n = src.size(); int need[4] = {0, 0, 0, 0}; std::string full; bool lms = a.name == "lms", free = lms || a.name == "kmeans";
    if (sep != 0) { LP l = fresh(a, src); D& d = *l->getSamples(); long t = vf_ms; bool r = l->train(); transition(); need[IT] = l->getSteps(); need[UP] = l->getUpdates(); need[TI] = vf_ms - t; need[EP] = -1; if (a.blind) need[UP] = -1; full = sol(*l); expect(r, a.name + "/unlimited", "unlimited training fails"); faithful(a, *l, d, r, sep, bef, a.name + "/unlimited", "unlimited training"); }
    for (int kind : a.lim) { std::set<int> vs; int top = sep == 0 ? (thorough() ? 40 : 12) : need[kind] < 0 ? 400 : need[kind] + 3; for (int v = 0; v <= std::min(top, n >= 10 ? 2 : thorough() ? 60 : 10); v++) vs.insert(v); for (int v = 13; v < top && vs.size() < 100; v = n >= 10 ? v * 4 : v * 3 / 2) vs.insert(v); if (sep != 0 && need[kind] > 0) for (int v : {need[kind] - 2, need[kind] - 1, need[kind], need[kind] + 1, need[kind] + 2}) if (v >= 0) vs.insert(v); bool complete = false, scan = kind == EP || (a.blind && kind == UP);
        for (int v : vs) { auto key = a.name + "/" + kinds[kind]; auto how = std::string(kinds[kind]) + " limit " + std::to_string(v); LP l = fresh(a, src); D& d = *l->getSamples(); set(*l, kind, v); long t = vf_ms; bool r = l->train(); t = vf_ms - t; transition(); count("cut trainings"); state(a.name + how + bef + sol(*l));
            if (kind == IT) expectf(l->getSteps() <= v + (nested ? 3 : 1), key + "/bound", [&] { return how + ": " + std::to_string(l->getSteps()) + " passes on " + show(src); }); if (kind == UP) expectf(l->getUpdates() <= v + (long)n, key + "/bound", [&] { return how + ": " + std::to_string(l->getUpdates()) + " updates on " + show(src); });
            if (kind == TI) expectf(t <= (nested ? 2 * v + 12 : v + 8), key + "/bound", [&] { return how + ": training takes " + std::to_string(t) + " readings of the clock on " + show(src); });
            faithful(a, *l, d, r, sep, bef, key, how); if (!free && v == 0 && sep == 0) expect(!r, key + "/success", how + ": training succeeds");
            if (sep != 0) { bool same = r && sol(*l) == full; if (!free && scan && r) expectf(same, key + "/full", [&] { return how + ": success with " + sol(*l) + ", unlimited training gives " + full + " on " + show(src); }); if (!scan && !(a.base != BIG && (nested ? kind != UP : kind == IT)) && v >= need[kind] + 2) expectf(same, key + "/full", [&] { return how + " is not reached (" + std::to_string(need[kind]) + " needed), but training gives " + sol(*l) + ", unlimited training " + full + " on " + show(src); }); expect(!complete || same, key + "/more", how + ": a larger limit gives less"); if (scan) complete |= same; }
            // the limit is lifted
            if (sep != 0) { set(*l, kind, kind == IT ? a.base : BIG); bool r2 = l->train(); transition(); expectf(r2, key + "/resume", [&] { return how + ": training again without the limit fails on " + show(src); }); faithful(a, *l, d, r2, sep, bef, key + "/resume", how + ", then without"); }
        }
        if (sep != 0 && scan) expect(complete, a.name + "/epochs/suffices", "no limit suffices"); }
    // a limit is that of each training, not of all of them
    if (sep != 0 && sepo != 0) for (int kind : a.lim) { if (kind == EP || kind == TI || a.blind || a.base != BIG || a.name == "fixed-dual" /* counts on, as the engine of IMA */) continue; auto two = [&](int lim, bool reset, int* need2) { LP l = fresh(a, src); set(*l, kind, lim); bool r = l->train(); *need2 = kind == IT ? l->getSteps() : l->getUpdates(); if (reset) { l->setSteps(0); l->setCtot(0); } l->setSamples(other); bool r2 = l->train(); transition(2); if (reset) *need2 = std::max(*need2, kind == IT ? l->getSteps() : l->getUpdates()); return std::to_string(r) + std::to_string(r2) + sol(*l); };
        int need2 = 0, x; auto w = two(BIG, true, &need2); auto g = two(need2 + 1, false, &x); expectf(w == g, a.name + "/" + kinds[kind] + "/again", [&] { return "a limit of " + std::to_string(need2 + 1) + " " + kinds[kind] + ", which suffices for each of two trainings, gives " + g + " instead of " + w + " in the second on " + show(other); }); }
}
static std::vector<Algo> algos() {
    std::vector<Algo> v; using namespace mltk;
    v.push_back({"perceptron", [](const D& d) -> LP { return std::make_shared<mc::PerceptronPrimal<double>>(d, 2, 0.5); }, {IT, UP, TI}});
    v.push_back({"fixed", [](const D& d) -> LP { return std::make_shared<mc::PerceptronFixedMarginPrimal<double>>(d, 0); }, {IT, UP, TI}});
    v.push_back({"balanced", [](const D& d) -> LP { return std::make_shared<mc::BalancedPerceptron<double>>(d, 7); }, {UP, EP, TI}, -1, 0, 0, BIG, true});
    v.push_back({"dual", [](const D& d) -> LP { return std::make_shared<mc::PerceptronDual<double>>(d, INNER_PRODUCT, 0, 0.5); }, {IT, UP, TI}, INNER_PRODUCT});
    v.push_back({"dual-gauss", [](const D& d) -> LP { return std::make_shared<mc::PerceptronDual<double>>(d, GAUSSIAN, 0.8, 1.0); }, {IT, UP, TI}, GAUSSIAN, 0.8, 1});
    v.push_back({"fixed-dual", [](const D& d) -> LP { return std::make_shared<mc::PerceptronFixedMarginDual<double>>(d, INNER_PRODUCT); }, {IT, UP, TI}, INNER_PRODUCT});
    v.push_back({"ima", [](const D& d) -> LP { return std::make_shared<mc::IMAp<double>>(d); }, {IT, UP, TI}, -1, 0, 0, 300});
    v.push_back({"ima-dual", [](const D& d) -> LP { return std::make_shared<mc::IMADual<double>>(d, INNER_PRODUCT); }, {IT, UP, TI}, INNER_PRODUCT, 0, 0, 300});
    v.push_back({"smo", [](const D& d) -> LP { return std::make_shared<mc::SMO<double>>(d, INNER_PRODUCT); }, {EP}, INNER_PRODUCT});
    v.push_back({"lms", [](const D& d) -> LP { return std::make_shared<mltk::regressor::LMSPrimal<double>>(d, 0.05); }, {IT, TI}, -1, 0, 2, 200});
    v.push_back({"kmeans", [](const D& d) -> LP { return std::make_shared<mltk::clusterer::KMeans<double>>(d, 2, "kmeanspp", 7, 0); }, {TI}, -1, 0, 2});
    return v;
}
static void all(const VV& xs, const V& ys, const VV& xo, const V& yo, int only = -1) {
    D d = make(xs, ys), o = make(xo, yo); d.setClasses({-1, 1}); o.setClasses({-1, 1}); nontrivial(); int lin = separable(xs, ys), con = !contradictory(xs, ys), lino = separable(xo, yo), cono = !contradictory(xo, yo); int i = 0;
    for (auto& a : algos()) { if (only >= 0 && i++ % 3 != only) continue; if (a.name == "smo" && !lin) continue; if (a.name == "lms" && xs.size() >= 10) continue; bool two = std::set<double>(ys.begin(), ys.end()).size() > 1; if (a.name == "smo" && !two) continue; cut(a, d, o, a.needs == 0 ? lin : a.needs == 1 ? con : 1, a.needs == 0 ? lino : a.needs == 1 ? cono : 1); }
}
void vf::run() {
    VV e1 = {{1, 0, 2}, {-1, 0, 1}, {0, 2, -1}}; V y1 = {1, -1, 1}; VV e2 = {{0}, {1}, {2}, {4}, {5}, {7}}; V y2 = {1, 1, 1, 1, -1, -1}; int c = 0;
    auto go = [&](const VV& xs, const V& ys, const std::string& desc) { int k = c++; kase("limits", desc, [&] { if (k % 2) all(xs, ys, e1, y1); else all(xs, ys, e2, y2); }); };
    for (int n = 2; n <= (thorough() ? 5 : 4); n++) multisets(n, 9, [&](const std::vector<int>& id) { for (int i = 0; i + 1 < n; i++) if (id[i] == id[i + 1]) return; for (int l = 1; l < (1 << n) - 1; l++) { static int t = 0; if (t++ % (thorough() ? 3 : n == 2 ? 2 : n == 3 ? 7 : 29)) continue; VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({id[i] % 3 - 1.0, id[i] / 3 - 1.0}); ys.push_back(l >> i & 1 ? 1 : -1); } if (t % 2) { std::reverse(xs.begin(), xs.end()); std::reverse(ys.begin(), ys.end()); } go(xs, ys, "grid " + str(id) + " labels " + std::to_string(l)); } });
    for (int n = 3; n <= (thorough() ? 7 : 5); n++) for (int l = 1; l < (1 << n) - 1; l++) { VV xs; V ys; for (int i = 0; i < n; i++) { xs.push_back({double(i)}); ys.push_back(l >> i & 1 ? 1 : -1); } go(xs, ys, "line of " + std::to_string(n) + " labels " + std::to_string(l)); }
    for (int n = 10; n <= (thorough() ? 40 : 20); n += 10) for (int dim = 2; dim <= 4; dim++) { VV xs; V ys; for (int i = 0; i < n; i++) { V x; for (int j = 0; j < dim; j++) x.push_back(std::round(5 * std::sin(i * (j + 1) * 1.7 + j * j)) / 2 + (i % 2) * 6); xs.push_back(x); ys.push_back(2 * (i % 2) - 1); } go(xs, ys, "size " + std::to_string(n) + " dim " + std::to_string(dim)); }
}
