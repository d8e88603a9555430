// C07: every way of copying a dataset x every mutation x either side: the other side does not change.
#include "dset.hpp"
#include "ufjfmltk/valid/Validation.hpp"
#include "ufjfmltk/core/Sampling.hpp"
using namespace ds; using namespace vf;
static std::string f1, f2;
static const char* SRCS[] = {"binary", "three classes", "loaded data file", "loaded csv", "regression", "renamed+normalized", "shuffled", "one point", "duplicates", "loaded with class names"};
static D source(int k) {
    D d;
    switch (k) {
    case 0: d = tagged({-1, 1, 1, -1}); d.setName("bin"); d.setType("BinClassification"); break;
    case 1: d = tagged({3, 1, 2, 3, 1}, 3); break;
    case 2: d.load(f1); break;
    case 3: d.load(f2, true); break;
    case 4: d = tagged({1, 5, 2}, 2, "Regression"); break;
    case 5: d = tagged({2, 1, 2, 1}, 3); d.setName("x"); d.normalize(); d.setFeaturesNames({4, 7, 9, 11}); break;
    case 6: d = tagged({2, 1, 2, 1, 1, 2}, 2); d.shuffle(11); { auto v = d.getIndex(); std::reverse(v.begin(), v.end()); d.setIndex(v); } break;
    case 7: d = tagged({4}); break;
    case 8: d = make({{1, 1}, {1, 1}, {0, 0}, {0, 0}, {2, 1}}, {1, 1, 2, 2, 1}); break;
    case 9: d = D(f2.c_str(), "Classification", "red", "blue"); break;
    }
    for (size_t i = 0; i < d.size(); i++) d.point(i)->Alpha() = 0.125 * (i + 1);
    return d;
}
static const int NS = 10;
static const char* COPIES[] = {"copy constructor", "copy()", "copy(const&)", "copy(const&) over data", "assignment", "assignment over data", "self assignment", "by value argument", "TrainTestPair", "vector of datasets", "make_data"};
static const int NC = 11;
static D pass(D x) { return x; }
static std::shared_ptr<D> copy_of(int k, D& d) {
    auto r = std::make_shared<D>();
    switch (k) {
    case 0: return std::make_shared<D>(d);
    case 1: *r = d.copy(); return r;
    case 2: r->copy(d); return r;
    case 3: *r = tagged({7, 8, 9}, 4); r->copy(d); return r;
    case 4: *r = d; return r;
    case 5: *r = tagged({7, 8, 9}, 4); r->shuffle(3); *r = d; return r;
    case 6: { *r = d; D& a = *r; *r = a; r->copy(a); return r; }
    case 7: *r = pass(d); return r;
    case 8: { mltk::validation::TrainTestPair<double> t(d, d); *r = t.test; return r; }
    case 9: { std::vector<D> v; v.push_back(d); v.push_back(d); v.resize(9); *r = v[1]; return r; }
    default: { auto q = mltk::make_data<double>(d); return q; }
    }
}
static const char* MUT[] = {"write feature", "write label", "write id and alpha", "apply", "normalize", "shuffle", "removeFeatures", "insertPoint", "removePoint", "removePoints", "updatePointValue", "clear", "join", "setClasses", "setFeaturesNames", "setIndex", "resize a point", "assign another", "setPoint", "classesCopy", "rename", "load another file"};
static const int NM = 22;
static bool mutate(int k, D& d) {
    size_t n = d.size(); if (!n) return false;
    switch (k) {
    case 0: for (size_t i = 0; i < n; i++) for (auto& x : *d[i]) x = -77; d(0)[0] = 5; break;
    case 1: for (size_t i = 0; i < n; i++) d[i]->Y() = 42 + i; break;
    case 2: for (size_t i = 0; i < n; i++) { d[i]->Id() = 500 + i; d[i]->Alpha() = 9; } break;
    case 3: d.apply([](mltk::PointPointer<double> p) { *p *= 3; p->Y() = 8; }); break;
    case 4: d.normalize(2); break;
    case 5: d.shuffle(77); break;
    case 6: if (d.dim() < 2) return false; d.removeFeatures({d.getFeaturesNames()[0]}); break;
    case 7: d.insertPoint(mk(std::vector<double>(d.dim(), 3.5), 99)); break;
    case 8: d.removePoint(d.point(0)->Id()); break;
    case 9: { std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back(d.point(i)->Id()); d.removePoints(v); break; }
    case 10: d.updatePointValue(n - 1, 77); break;
    case 11: d.clear(); break;
    case 12: { D o = tagged({1, 9}, d.dim()); d.join(o); break; }
    case 13: { auto c = d.classes(); std::reverse(c.begin(), c.end()); d.setClasses(c); break; }
    case 14: d.setFeaturesNames(std::vector<int>(d.dim(), 6)); break;
    case 15: { auto v = d.getIndex(); std::rotate(v.begin(), v.begin() + (v.empty() ? 0 : 1), v.end()); d.setIndex(v); break; }
    case 16: d[0]->X().push_back(1); break;
    case 17: d = tagged({1, 2}); break;
    case 18: d.setPoint(0, std::make_shared<P>(mk(std::vector<double>(d.dim(), 1), 1))); break;
    case 19: { D o = tagged({1, 2, 1}); std::vector<int> c = {1}; d.classesCopy(o, c); break; }
    case 20: d.setName("other"); d.setType("Clustering"); break;
    case 21: d.load(f2, true); break;
    }
    return true;
}
// parts derived from a dataset; every one must own its points
static const char* DER[] = {"splitByClasses", "splitSample stratified", "splitSample", "splitSample renumbered", "sampling", "sampling without replacement", "selectFeatures", "insertFeatures", "removeFeatures copy", "classesCopy", "join", "insertPoint from dataset", "insertPoint by value", "kfoldsplit", "partTrainTest", "SMOTE source"};
static const int ND = 16;
static bool derive(int k, D& d, std::vector<D>& out) {
    bool cls = d.isClassification(); auto fn = d.getFeaturesNames(); D r;
    switch (k) {
    case 0: if (!cls) return false; out = d.splitByClasses(true); { auto o = d.splitByClasses(false); out.insert(out.end(), o.begin(), o.end()); } break;
    case 1: if (d.size() < 2) return false; out = d.splitSample(2, true, true, 3); break;
    case 2: if (d.size() < 2) return false; out = d.splitSample(2, false, true, 3); break;
    case 3: if (d.size() < 2) return false; out = d.splitSample(2, false, false, 3); break;
    case 4: if (!cls) return false; out.push_back(d.sampling(d.size(), true, 5)); break;
    case 5: if (!cls) return false; out.push_back(d.sampling(d.size(), false, 5)); break;
    case 6: out.push_back(d.selectFeatures({size_t(fn[0])})); break;
    case 7: out.push_back(d.insertFeatures({fn[0]})); out.push_back(d.insertFeatures({fn.back()}, true)); break;
    case 8: { const D& c = d; out.push_back(c.removeFeatures({fn[0]}, 1)); out.push_back(c.removeFeatures({fn[0]}, -1)); break; }
    case 9: { if (!cls) return false; auto c = d.classes(); r.classesCopy(d, c); out.push_back(r); break; }
    case 10: r.setType(d.getType()); r.join(d); out.push_back(r); r.join(d); out.push_back(r); break;
    case 11: r.setType(d.getType()); for (size_t i = 0; i < d.size(); i++) r.insertPoint(d, i, i % 2); out.push_back(r); break;
    case 12: r.setType(d.getType()); for (size_t i = 0; i < d.size(); i++) r.insertPoint(*d.point(i)); out.push_back(r); break;
    case 13: { if (d.size() < 2) return false; for (auto& t : mltk::validation::kfoldsplit(d, 2, true, true, 3)) { out.push_back(t.train); out.push_back(t.test); } break; }
    case 14: { if (d.size() < 2) return false; auto t = mltk::validation::partTrainTest(d, 2, true, false, 3); out.push_back(t.train); out.push_back(t.test); break; }
    case 15: { if (!cls || d.size() < 3) return false; D c(d); mltk::SMOTE<double> s(1, 0.1, 4); out.push_back(s(c)); break; }
    }
    return true;
}
void vf::run() {
    f1 = S.scratch + "/a.data"; f2 = S.scratch + "/b.csv";
    if (!S.scratch.empty()) { std::ofstream a(f1); a << "1 3:0.5 7:2\n-1 3:1.5 7:4\n1 3:2.5 7:-1\n"; std::ofstream b(f2); b << "0.5,1.5,red\n2,3,blue\n4,5,red\n6,1,green\n"; }
    for (int s = 0; s < NS; s++) for (int c = 0; c < NC; c++) {
        kase("equal", std::string(SRCS[s]) + " / " + COPIES[c] + " / equal", [&] {
            D d = source(s); auto before = show(d); auto r = copy_of(c, d); nontrivial();
            expectf(show(*r) == before, "copy/differs", [&] { return show(*r) + " expected " + before; });
            expectf(show(d) == before, "copy/source", [&] { return show(d) + " expected " + before; });
            expect(*r == d && !(*r != d), "copy/compare", "a copy does not compare equal to the original");
            auto a = copy_of(c, *r); expect(*a == d && show(*a) == before, "copy/again", "a copy of a copy differs: " + show(*a));
            // a copy behaves as the original does afterwards
            for (int m = 0; m < NM; m++) { D x = source(s); auto y = copy_of(c, x); if (!mutate(m, x)) continue; mutate(m, *y); expectf(show(x) == show(*y), "copy/behaviour", [&] { return std::string("after ") + MUT[m] + ": " + show(*y) + " expected " + show(x); }); }
        });
        for (int m = 0; m < NM; m++) kase("isolated", std::string(SRCS[s]) + " / " + COPIES[c] + " / " + MUT[m], [&] {
            for (int m2 = -1; m2 < NM; m2++) { if (m2 == 16) continue; // not followed by operations that need points of equal dimension
            { D d = source(s); auto r = copy_of(c, d); auto before = show(*r); if (m2 >= 0) mutate(m2, d); if (!mutate(m, d)) continue; expectf(show(*r) == before, "isolated/copy-changed", [&] { return std::string(m2 >= 0 ? MUT[m2] : "") + " then " + MUT[m] + ": " + show(*r) + " was " + before; }); }
            { D d = source(s); auto before = show(d); auto r = copy_of(c, d); if (m2 >= 0) mutate(m2, *r); if (!mutate(m, *r)) continue; expectf(show(d) == before, "isolated/original-changed", [&] { return std::string(m2 >= 0 ? MUT[m2] : "") + " then " + MUT[m] + ": " + show(d) + " was " + before; }); }
            nontrivial(S.desc + std::to_string(m2)); count("mutations", 2); }
        });
    }
    for (int s = 0; s < NS; s++) for (int k = 0; k < ND; k++) for (int m = 0; m < NM; m++) kase("derived", std::string(SRCS[s]) + " / " + DER[k] + " / " + MUT[m], [&] {
        D d = source(s); auto before = show(d); std::vector<D> o; if (!derive(k, d, o)) return; nontrivial();
        expectf(show(d) == before, "derived/source", [&] { return "the call changed its source: " + show(d) + " was " + before; });
        if (k < 6 || (k > 8 && k < 15)) { std::set<std::tuple<std::vector<double>, double, double>> src; for (auto& p : pts(d)) src.insert({p.x, p.y, p.alpha}); for (auto& x : o) for (auto& p : pts(x)) expectf(src.count({p.x, p.y, p.alpha}), "derived/content", [&] { return "a derived point is no point of the source: " + show({p}) + " source " + before; }); }
        if (k == 9) expectf(pts(o[0]) == pts(d) && o[0].classesNames() == d.classesNames() && o[0].classesDistribution() == d.classesDistribution() && o[0].getFeaturesNames() == d.getFeaturesNames() && o[0].getType() == d.getType(), "derived/classesCopy", [&] { return "the points of all the classes: " + show(o[0]) + " source " + before; });
        std::vector<std::string> bo; for (auto& x : o) bo.push_back(show(x));
        mutate(m, d);
        for (size_t i = 0; i < o.size(); i++) expectf(show(o[i]) == bo[i], "derived/part-changed", [&] { return "changing the source changed the part: " + show(o[i]) + " was " + bo[i]; });
        for (size_t i = 0; i < o.size(); i++) { D e = source(s); std::vector<D> q; derive(k, e, q); mutate(m, q[i]); expectf(show(e) == before, "derived/source-changed", [&] { return "changing the part changed the source: " + show(e) + " was " + before; });
            for (size_t j = 0; j < q.size(); j++) if (j != i) expectf(show(q[j]) == bo[j], "derived/sibling-changed", [&] { return "changing one part changed another: " + show(q[j]) + " was " + bo[j]; }); }
        count("mutations", 1 + 2 * o.size());
    });
}
