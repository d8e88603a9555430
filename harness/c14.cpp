// C14: confusion matrices and the measures computed from them.
#include "dset.hpp"
#include "ufjfmltk/valid/Validation.hpp"
using namespace ds; using namespace vf; using namespace mltk::validation;
struct Table : mltk::classifier::Classifier<double> { std::map<double, double> pred; int trained = 0; bool train() override { trained++; return true; } double evaluate(const P& p, bool = false) override { return trained ? 1234 : pred.at(p[0]); } std::string getFormulationString() override { return "Primal"; } };
static const std::vector<std::vector<int>> alphabets = {{1, -1}, {-1, 1}, {0, 1}, {3, 1, 2}, {5, 0, -2}, {7}, {2, 4, 6, 8}};
static void matrix(const std::vector<int>& cl, const std::vector<int>& y, const std::vector<int>& p, const std::string& key) {
    D d; d.setType("Classification"); for (int c : y) d.insertPoint(mk({double(d.size()) + 1, 0.5}, cl[c])); Table t; for (size_t i = 0; i < p.size(); i++) t.pred[i + 1] = cl[p[i]];
    auto names = d.classes(); bool inside = true; for (int c : p) inside &= std::find(names.begin(), names.end(), cl[c]) != names.end(); if (!inside) return; // predictions of labels absent from the data have no column
    auto before = show(d); auto m = generateConfusionMatrix<double>(d, t); count("matrices"); nontrivial(before + str(p)); size_t k = names.size(), ok = 0, n = y.size();
    std::vector<std::vector<size_t>> ref(k, std::vector<size_t>(k, 0)); auto pos = [&](int l) { return std::find(names.begin(), names.end(), l) - names.begin(); }; for (size_t i = 0; i < n; i++) { ref[pos(cl[y[i]])][pos(cl[p[i]])]++; ok += y[i] == p[i]; }
    auto ms = [&](auto& x) { std::string s; for (auto& r : x) s += str(r); return s; };
    if (!expectf(m == ref, key + "/matrix", [&] { return "confusion matrix " + ms(m) + " of predictions " + str(p) + " on " + show(d) + ", expected " + ms(ref); })) return; expect(show(d) == before, key + "/data", "the dataset changed");
    expectf(close(confusionMatrixAccuracy(m), 100.0 * ok / n), key + "/cm-accuracy", [&] { return num(confusionMatrixAccuracy(m)) + " for " + ms(m); });
    expectf(close(accuracy(d, t), double(ok) / n) && t.trained == 0, key + "/accuracy", [&] { return "accuracy " + num(accuracy(d, t)) + ", " + std::to_string(ok) + " of " + std::to_string(n) + " are right"; });
    { Table u; struct Learns : Table { bool train() override { return true; } } v; (void)u; v.pred = t.pred; expect(close(accuracy(d, v, false), double(ok) / n), key + "/accuracy", "accuracy of an untrained model"); expect(close(accuracy(d, v, true), double(ok) / n), key + "/accuracy", "accuracy"); }
    auto rate = [&](double got, double a, double b, const char* w) { if (b > 0) expectf(close(got, a / b), key + "/" + w, [&] { return std::string(w) + " " + num(got) + ", expected " + num(a / b) + " for " + ms(m); }); };
    for (unsigned pm = 0; pm < (1u << k); pm++) { std::vector<int> lab; for (size_t i = 0; i < k; i++) if (pm >> i & 1) lab.push_back(names[i]); if (k % 2) std::reverse(lab.begin(), lab.end()); auto r = metricsReport(d, m, lab); auto isp = [&](size_t i) { return lab.empty() || (pm >> i & 1); };
        size_t tp = 0, tn = 0, fn = 0, fp = 0; for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) (i == j ? (isp(i) ? tp : tn) : (isp(i) ? fn : fp)) += ref[i][j];
        expectf(r.tp == tp && r.tn == tn && r.errors == n - ok && (k > 2 ? r.fp + r.fn == fp + fn : r.fp == fp && r.fn == fn), key + "/counts", [&] { return "tp " + std::to_string(r.tp) + " tn " + std::to_string(r.tn) + " fp " + std::to_string(r.fp) + " fn " + std::to_string(r.fn) + " for positive " + str(lab) + " of " + str(names) + " " + ms(m); });
        rate(r.accuracy, ok, n, "report-accuracy"); expect(close(r.error, 1 - double(ok) / n), key + "/report-error", num(r.error)); if (k != 2 || lab.size() != 1) continue;
        rate(r.sensitivity, tp, tp + fn, "sensitivity"); rate(r.recall, tp, tp + fn, "recall"); rate(r.specificity, tn, tn + fp, "specificity"); rate(r.precision, tp, tp + fp, "precision"); if (tp) rate(r.fscore, 2 * tp, 2 * tp + fp + fn, "fscore"); }
    // predictions against labels
    mltk::Point<int> a(n), b(n); std::set<int> u; for (size_t i = 0; i < n; i++) { a[i] = cl[y[i]]; b[i] = cl[p[i]]; u.insert(a[i]); u.insert(b[i]); } auto r = classificationReport(a, b); rate(r.accuracy, ok, n, "classification-accuracy");
    if (u.size() == 2 && u.count(1)) { size_t tp = 0, tn = 0, fn = 0, fp = 0; for (size_t i = 0; i < n; i++) (a[i] == b[i] ? (a[i] == 1 ? tp : tn) : (a[i] == 1 ? fn : fp))++;
        expectf(r.tp == tp && r.tn == tn && r.fp == fp && r.fn == fn, key + "/classification-counts", [&] { return "tp " + std::to_string(r.tp) + " tn " + std::to_string(r.tn) + " fp " + std::to_string(r.fp) + " fn " + std::to_string(r.fn) + " for " + str(y) + " predicted " + str(p); });
        rate(r.sensitivity, tp, tp + fn, "classification-sensitivity"); rate(r.recall, tp, tp + fn, "classification-recall"); rate(r.specificity, tn, tn + fp, "classification-specificity"); rate(r.precision, tp, tp + fp, "classification-precision"); if (tp) rate(r.fscore, 2 * tp, 2 * tp + fp + fn, "classification-fscore"); }
}
void vf::run() {
    for (size_t A = 0; A < alphabets.size(); A++) { auto& cl = alphabets[A]; int k = cl.size(); int N = k <= 2 ? (thorough() ? 9 : 7) : k == 3 ? (thorough() ? 6 : 5) : (thorough() ? 5 : 4);
        for (int n = 1; n <= N; n++) product(n, k, [&](const std::vector<int>& y) { kase("metrics", "classes " + str(cl) + " labels " + str(y), [&] { product(n, k, [&](const std::vector<int>& p) { matrix(cl, y, p, "metrics"); }); }); });
        for (int n = 8; n <= (thorough() ? 200 : 60); n += 1 + n / 8) for (int s = 0; s < 12; s++) kase("metrics", "classes " + str(cl) + " size " + std::to_string(n) + " #" + std::to_string(s), [&] { std::vector<int> y, p; for (int i = 0; i < n; i++) { y.push_back((i * (s + 1) + i / 3) % k); p.push_back((i * i % 7 < s % 5 + 1) ? y[i] : (y[i] + 1 + i % 2) % k); } matrix(cl, y, p, "metrics"); }); }
    // the printed report
    kase("print", "printed report", [&] { ValidationReport r; r.tp = 11; r.tn = 22; r.fp = 33; r.fn = 44; r.precision = 0.5; r.recall = 0.25; r.fscore = 0.125; r.accuracy = 0.75; std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); r.print(); std::cout.rdbuf(b); std::vector<double> v; std::istringstream in(o.str()); std::string l; while (std::getline(in, l)) v.push_back(atof(l.substr(l.rfind(':') + 1).c_str())); expect(v == std::vector<double>{11, 22, 33, 44, 0.5, 0.25, 0.125, 0.75}, "print", o.str()); });
}
