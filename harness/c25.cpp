// C25: every distance measure is the one it is named after.
#include "dset.hpp"
#include "ufjfmltk/core/DistanceMetric.hpp"
using namespace ds; using namespace vf; using V = std::vector<double>; namespace md = mltk::metrics::dist;
using F = std::function<double(const V&, const V&)>;
struct M { std::string name; std::function<double(const P&, const P&)> lib; F ref; bool sgn, sym, metric; };
static double sum(const V& a, const V& b, std::function<double(double, double)> f) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += f(a[i], b[i]); return s; }
static double xx(const V& a) { return sum(a, a, [](double x, double y) { return x * y; }); }
static double mx(const V& a, const V& b) { double m = 0; for (size_t i = 0; i < a.size(); i++) m = std::max(m, std::fabs(a[i] - b[i])); return m; }
static std::vector<M> measures() {
    std::vector<M> v; using D2 = double;
#define S(e) [](const V& a, const V& b) { return sum(a, b, [](double x, double y) { return e; }); }
#define W(e) [](const V& a, const V& b) { return e; }
#define S2(e) sum(a, b, [](double x, double y) { return e; })
#define ADD(T, ref, sgn, sym, met) v.push_back({#T, [](const P& a, const P& b) { return md::T<double>()(a, b); }, ref, sgn, sym, met});
    ADD(Euclidean, W(std::sqrt(S2((x - y) * (x - y)))), 1, 1, 1) ADD(Manhattan, S(std::fabs(x - y)), 1, 1, 1) ADD(Chebyshev, W(mx(a, b)), 1, 1, 1) ADD(Lorentzian, S(std::log(1 + std::fabs(x - y))), 1, 1, 1) ADD(Canberra, S(std::fabs(x - y) / (std::fabs(x) + std::fabs(y))), 1, 1, 1) ADD(Sorensen, W(S2(std::fabs(x - y)) / S2(x + y)), 0, 1, 0) ADD(AvgManhattan, W(S2(std::fabs(x - y)) / a.size()), 1, 1, 1) ADD(NonIntersection, W(S2(std::fabs(x - y)) / 2), 1, 1, 1)
    ADD(Jaccard, W(S2((x - y) * (x - y)) / (xx(a) + xx(b) - S2(x * y))), 1, 1, 0) ADD(Cosine, W(1 - S2(x * y) / std::sqrt(xx(a) * xx(b))), 1, 1, 0) ADD(Dice, W(1 - 2 * S2(x * y) / (xx(a) + xx(b))), 1, 1, 0) ADD(Chord, W(std::sqrt(std::max(0.0, 2 - 2 * S2(x * y) / std::sqrt(xx(a) * xx(b))))), 1, 1, 0)
    ADD(Bhattacharyya, W(-std::log(S2(std::sqrt(x * y)))), 0, 1, 0) ADD(SquaredChord, S(std::pow(std::sqrt(x) - std::sqrt(y), 2)), 0, 1, 0) ADD(Matusita, W(std::sqrt(S2(std::pow(std::sqrt(x) - std::sqrt(y), 2)))), 0, 1, 1) ADD(Hellinger, W(std::sqrt(2 * S2(std::pow(std::sqrt(x) - std::sqrt(y), 2)))), 0, 1, 1)
    ADD(SquaredEuclidean, S((x - y) * (x - y)), 1, 1, 0) ADD(Clark, W(std::sqrt(S2(std::pow((x - y) / (std::fabs(x) + std::fabs(y)), 2)))), 1, 1, 0) ADD(Neyman, S((x - y) * (x - y) / x), 0, 0, 0) ADD(Pearson, S((x - y) * (x - y) / y), 0, 0, 0) ADD(Squared, S((x - y) * (x - y) / (x + y)), 0, 1, 0) ADD(ProbabilisticSymmetric, W(2 * S2((x - y) * (x - y) / (x + y))), 0, 1, 0) ADD(Divergence, W(2 * S2((x - y) * (x - y) / ((x + y) * (x + y)))), 0, 1, 0) ADD(AdditiveSymmetric, W(2 * S2((x - y) * (x - y) * (x + y) / (x * y))), 0, 1, 0) ADD(Average, W(std::sqrt(S2((x - y) * (x - y)) / a.size())), 1, 1, 1) ADD(SquaredChiSquared, S((x - y) * (x - y) / std::fabs(x + y)), 0, 1, 0)
    ADD(KullbackLeibler, S(x * std::log(x / y)), 0, 0, 0) ADD(Jeffreys, S((x - y) * std::log(x / y)), 0, 1, 0) ADD(KDivergence, S(x * std::log(2 * x / (x + y))), 0, 0, 0) ADD(Topsoe, S(x * std::log(2 * x / (x + y)) + y * std::log(2 * y / (x + y))), 0, 1, 0) ADD(JensenShannon, W(0.5 * S2(x * std::log(2 * x / (x + y)) + y * std::log(2 * y / (x + y)))), 0, 1, 0) ADD(JensenDifference, W(0.5 * S2((x * std::log(x) + y * std::log(y)) / 2 - (x + y) / 2 * std::log((x + y) / 2))), 0, 1, 0)
    ADD(MaxSymmetric, W(std::max(S2((x - y) * (x - y) / x), S2((x - y) * (x - y) / y))), 0, 1, 0) ADD(MinSymmetric, W(std::min(S2((x - y) * (x - y) / x), S2((x - y) * (x - y) / y))), 0, 1, 0) ADD(AverageL1Linf, W((S2(std::fabs(x - y)) + mx(a, b)) / 2), 1, 1, 1) ADD(KumarJohnson, S(std::pow(x * x - y * y, 2) / (2 * std::pow(x * y, 1.5))), 0, 1, 0) ADD(Taneja, S((x + y) / 2 * std::log((x + y) / (2 * std::sqrt(x * y)))), 0, 1, 0)
    ADD(Hassanat, S(std::min(x, y) >= 0 ? 1 - (1 + std::min(x, y)) / (1 + std::max(x, y)) : 1 - 1 / (1 + std::max(x, y) - std::min(x, y))), 1, 1, 1)
    return v; }
static const std::vector<M> ms = measures();
static double val(const M& m, const V& a, const V& b) { P p(a), q(b); double r = m.lib(p, q); expect(rp(p).x == a && rp(q).x == b, m.name + "/operands", "an operand changed"); return r; }
static void pair(const V& a, const V& b, const V& c) {
    bool pos = true; for (auto* v : {&a, &b, &c}) for (double x : *v) pos &= x > 0; transition();
    for (auto& m : ms) if (m.sgn || pos) { double d = val(m, a, b), e = m.ref(a, b); count("distances"); expectf(std::fabs(d - e) <= 1e-7 * (1 + std::fabs(e)), m.name, [&] { return m.name + " of " + str(a) + " and " + str(b) + " is " + num(d) + ", defined to be " + num(e); });
        if (m.name != "Bhattacharyya") { expectf(std::fabs(val(m, a, a)) < 1e-7, m.name + "/identity", [&] { return "the distance of " + str(a) + " to itself is " + num(val(m, a, a)); }); if (m.name != "KullbackLeibler" && m.name != "KDivergence") expectf(d > -1e-9, m.name + "/negative", [&] { return num(d) + " for " + str(a) + str(b); }); }
        if (m.sym) expectf(close(d, val(m, b, a), 1e-9), m.name + "/symmetry", [&] { return num(d) + " and " + num(val(m, b, a)) + " for " + str(a) + str(b); });
        if (m.metric) { expectf(a == b || d > 1e-12, m.name + "/zero", [&] { return "different points " + str(a) + str(b) + " at distance " + num(d); }); expectf(d <= val(m, a, c) + val(m, c, b) + 1e-9, m.name + "/triangle", [&] { return str(a) + str(b) + " through " + str(c); }); } }
}
void vf::run() {
    V pos = {0.2, 0.5, 1, 2.5, 4}, sg = {-2, -0.5, 0.3, 1, 3.5, -1};
    for (int s = 0; s < 2; s++) for (int n = 1; n <= 3; n++) { int B = s ? (n == 3 && !thorough() ? 4 : 6) : (n == 3 && !thorough() ? 4 : 5); product(n, B, [&](const std::vector<int>& x) { kase("distances", std::string(s ? "signed " : "positive ") + str(x), [&] { nontrivial(); auto mk_ = [&](const std::vector<int>& i) { V v; for (int k : i) v.push_back(s ? sg[k] : pos[k]); return v; }; product(n, B, [&](const std::vector<int>& y) { std::vector<int> z; for (int i = 0; i < n; i++) z.push_back((x[i] * 2 + y[n - 1 - i] + i) % B); pair(mk_(x), mk_(y), mk_(z)); state(str(x) + str(y) + std::to_string(s)); }); }); }); }
    for (int n = 4; n <= (thorough() ? 150 : 60); n++) for (int s = 0; s < 2; s++) kase("distances", "size " + std::to_string(n) + (s ? " signed" : " positive"), [&] { nontrivial(); for (int r = 0; r < 4; r++) { V a, b, c; for (int i = 0; i < n; i++) { a.push_back(std::sin(i * 1.3 + r) * 2 + (s ? 0.01 : 2.5)); b.push_back(std::cos(i * 2.1 + r) * 2 + (s ? 0.02 : 2.5)); c.push_back(std::sin(i * 0.7 - r) + (s ? 0.3 : 1.5)); } pair(a, b, c); } });
}
