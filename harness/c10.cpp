// C10: what is written is what is loaded (csv, data), and files of each format load to exactly their contents.
#include "dset.hpp"
using namespace ds; using namespace vf;
static const double V[] = {0, 1, -1, 0.5, -2.25, 1234.5, -99999, 0.001, 1e6, 2.5e-7, -1.25e12, 123456, 0.333333, 3e-10};
static const int NV = 14;
static void roundtrip(const D& src, const std::string& key) {
    for (int f = 0; f < 2; f++) {
        D d = src; std::string ext = f ? "csv" : "data", base = S.scratch + "/rt", path = base + "." + ext; auto before = show(d);
        unlink(path.c_str()); d.write(base, ext); expect(show(d) == before, key + "/source", "writing changed the dataset");
        D l; bool ok = l.load(path); count("roundtrips"); nontrivial(show(src) + ext);
        if (!expect(ok, key + "/load", "load failed")) continue;
        auto a = pts(l), b = pts(src);
        if (!expect(a.size() == b.size() && l.dim() == src.dim(), key + "/" + ext + "-shape", ext + ": loaded " + show(l) + " from " + before)) continue;
        for (size_t i = 0; i < a.size(); i++) { bool same = a[i].y == b[i].y; for (size_t j = 0; same && j < b[i].x.size(); j++) same = close(a[i].x[j], b[i].x[j], 1e-12) && (std::abs(a[i].x[j] - b[i].x[j]) <= 1e-12 * std::abs(b[i].x[j])); if (!same) { fail(key + "/" + ext + "-values", ext + ": loaded " + show({a[i]}) + " from " + show({b[i]})); break; } if (a[i].id != (int)i + 1) { fail(key + "/ids", "ids of a loaded dataset: " + show(l)); break; } }
        invariants(l, key + "/" + ext); names_are_numbers(l, key + "/" + ext);
        std::vector<int> order; for (auto& p : b) if (std::find(order.begin(), order.end(), (int)p.y) == order.end()) order.push_back(p.y);
        expect(l.classes() == order, key + "/classes", "classes " + str(l.classes()) + " expected in order of appearance " + str(order));
        std::vector<int> fn = src.getFeaturesNames(); if (f) for (size_t j = 0; j < fn.size(); j++) fn[j] = j + 1; expect(l.getFeaturesNames() == fn, key + "/fnames", ext + ": feature names " + str(l.getFeaturesNames()));
        D again; again = tagged({5, 6, 7, 8}, 3); again.load(path); expect(show(again) == show(l), key + "/reload", "loading over another dataset gives " + show(again) + " instead of " + show(l));
        D c(path.c_str()); expect(show(c) == show(l), key + "/constructor", "the loading constructor gives " + show(c) + " instead of " + show(l));
        unlink(path.c_str());
    }
}
static std::string put(const std::string& name, const std::string& text) { std::string p = S.scratch + "/" + name; std::ofstream f(p, std::ios::binary); f << text; return p; }
static std::string g(double v) { std::ostringstream o; o << v; return o.str(); }
void vf::run() {
    // every pair of values in a row, every label sequence up to 4 rows
    for (int a = 0; a < NV; a++) for (int b = 0; b < NV; b++) kase("values", "values " + num(V[a]) + " " + num(V[b]), [&] { roundtrip(make({{V[a], V[b]}, {V[b], V[a]}, {V[a], V[a]}}, {1, -1, 1}), "values"); roundtrip(make({{V[a]}, {V[b]}}, {2, 3}), "values"); roundtrip(make({{V[b], 1, V[a]}}, {-1}), "values"); });
    const int L[] = {1, -1, 2, 0, 37, -12};
    for (int n = 1; n <= (thorough() ? 5 : 4); n++) product(n, 6, [&](const std::vector<int>& l) { kase("labels", "labels " + str(l), [&] { std::vector<std::vector<double>> x; std::vector<double> y; for (int i = 0; i < n; i++) { x.push_back({i + 0.5, 2. - i}); y.push_back(L[l[i]]); } roundtrip(make(x, y), "labels"); }); });
    for (int n = 1; n <= (thorough() ? 120 : 40); n++) for (int dim : {1, 2, 3, 10, 40}) kase("sizes", "size " + std::to_string(n) + " dim " + std::to_string(dim), [&] { D d = patterned(n, n % 6, dim); roundtrip(d, "sizes"); if (dim > 2) { D e = d; e.removeFeatures({2}); roundtrip(e, "sizes"); } });
    // hand made files: class column at either end, both separators, textual classes, blank padding, CRLF
    const std::vector<std::vector<std::string>> NAMES = {{"1", "-1"}, {"red", "blue", "green"}, {"0", "1", "2"}, {"e", "a"}, {"-1", "1"}, {"yes", "no"}, {"2", "-1"}, {"A1", "B2", "e+"}, {"2", "red", "blue"}, {"red", "1", "2"}, {"b", "3", "a"}};
    for (size_t ni = 0; ni < NAMES.size(); ni++) for (int n = 1; n <= 4; n++) product(n, NAMES[ni].size(), [&](const std::vector<int>& l) { for (int fmt = 0; fmt < 11; fmt++) kase("file", "format " + std::to_string(fmt) + " classes " + str(NAMES[ni]) + " rows " + str(l), [&] {
        auto& nm = NAMES[ni]; bool numeric = ni == 0 || ni == 2 || ni == 4 || ni == 6; std::string t; std::vector<std::vector<double>> X; 
        for (int i = 0; i < n; i++) { std::vector<double> x; for (int j = 0; j < 3; j++) x.push_back(V[(i * 5 + j * 3 + 1) % NV]); X.push_back(x); std::string c = nm[l[i]], q;
            switch (fmt) { case 0: q = c + "," + g(x[0]) + "," + g(x[1]) + "," + g(x[2]); break; case 1: q = g(x[0]) + "," + g(x[1]) + "," + g(x[2]) + "," + c; break; case 2: q = g(x[0]) + ";" + g(x[1]) + ";" + g(x[2]) + ";" + c + "\r"; break; case 3: q = c + " 2:" + g(x[0]) + " 5:" + g(x[1]) + " 11:" + g(x[2]); break; case 4: q = g(x[0]) + "," + g(x[1]) + "," + g(x[2]) + "," + c; break; case 5: q = "  " + g(x[0]) + "," + g(x[1]) + "," + g(x[2]) + ", " + c + " "; break; case 6: q = "2:" + g(x[0]) + " 5:" + g(x[1]) + " 11:" + g(x[2]) + " " + c; break; case 7: q = c + ";" + g(x[0]) + ";" + g(x[1]) + ";" + g(x[2]); break; case 8: q = " " + c + "  2:" + g(x[0]) + "   5:" + g(x[1]) + "  11:" + g(x[2]) + " \r"; break; case 10: q = g(x[0]) + ", " + g(x[1]) + ",  " + g(x[2]) + ", " + c; break; case 9: q = c + ", " + g(x[0]) + ", " + g(x[1]) + ", " + g(x[2]) + " "; break; }
            t += q + (i == n - 1 && l[0] == 0 ? "" : "\n"); }
        static const char* F[] = {"a.csv", "b.csv", "c.csv", "d.data", "e.arff", "f.csv", "g.data", "h.csv", "i.data", "j.csv", "k.arff"}; bool end = fmt == 1 || fmt == 2 || fmt == 5;
        D d; bool ok = end ? d.load(put(F[fmt], t), true) : d.load(put(F[fmt], t)); nontrivial(); count("files");
        if (!expect(ok && (int)d.size() == n && d.dim() == 3, "file/shape", "loaded " + show(d) + " from " + t)) return;
        std::vector<std::string> order; std::map<std::string, int> lab;
        for (int i = 0; i < n; i++) { auto c = nm[l[i]]; if (!lab.count(c)) { order.push_back(c); lab[c] = d.point(i)->Y(); if (numeric) expect(d.point(i)->Y() == std::stoi(c), "file/label", "class " + c + " was read as " + num(d.point(i)->Y())); }
            expect(d.point(i)->Y() == lab[c], "file/label-consistency", "class " + c + " was read as " + num(d.point(i)->Y()) + " and as " + num(lab[c]) + ": " + show(d)); for (int j = 0; j < 3; j++) expect(close(d(i)[j], X[i][j], 1e-12), "file/values", "loaded " + show(d) + " from " + t); }
        std::set<int> dis; for (auto& k : lab) dis.insert(k.second); expect(dis.size() == lab.size(), "file/classes-merged", "two classes got the same label: " + show(d));
        expect(d.classesNames() == order, "file/names", "class names " + str(d.classesNames()) + " expected " + str(order)); auto cl = d.classes(); for (size_t i = 0; i < order.size() && i < cl.size(); i++) expect(cl[i] == lab[order[i]], "file/aligned", "classes not aligned with names: " + show(d));
        if (fmt == 3 || fmt == 6 || fmt == 8) expect(d.getFeaturesNames() == std::vector<int>({2, 5, 11}), "file/fnames", "feature names " + str(d.getFeaturesNames()));
        invariants(d, "file"); auto s1 = show(d); D e; e.load(put("zz.csv", "9,1,2\n8,3,4\n")); if (end) e.load(S.scratch + "/" + F[fmt], true); else e.load(S.scratch + "/" + F[fmt]); expect(show(e).substr(0, show(e).find(" t")) == s1.substr(0, s1.find(" t")), "file/reload", "loaded after another file: " + show(e) + " instead of " + s1);
        unlink((S.scratch + "/" + F[fmt]).c_str());
    }); });
    // regression csv files, at either end, and written again
    const double T[] = {0.5, -2.25, 3, 0, 1234.5, -1e-3};
    for (int n = 1; n <= 4; n++) product(n, 6, [&](const std::vector<int>& l) { kase("regression", "targets " + str(l), [&] { for (int end = 0; end < 2; end++) for (char sep : {',', ';'}) {
        std::string t; std::vector<RP> w; for (int i = 0; i < n; i++) { RP p; p.y = T[l[i]]; p.id = i + 1; for (int j = 0; j < 2; j++) p.x.push_back(V[(i * 5 + j * 3 + 1) % NV]); w.push_back(p); std::string c = g(p.y), a = g(p.x[0]) + sep + g(p.x[1]); t += end ? a + sep + c : c + sep + a; t += "\n"; }
        D d; d.setType("Regression"); bool ok = end ? d.load(put("r.csv", t), true) : d.load(put("r.csv", t)); nontrivial(); count("files");
        if (!expect(ok && (int)d.size() == n && d.dim() == 2, "regression/shape", "loaded " + show(d) + " from " + t)) return;
        expect(pts(d) == w && !d.isClassification() && d.getFeaturesNames() == std::vector<int>({1, 2}) && d.getLabels() == [&] { std::vector<double> y; for (auto& p : w) y.push_back(p.y); return y; }(), "regression/values", "loaded " + show(d) + " from " + t); invariants(d, "regression", false);
        D c = d; c.write(S.scratch + "/rw", "csv"); D e; e.setType("Regression"); e.load(S.scratch + "/rw.csv"); expect(show(e).substr(0, show(e).find(" t")) == show(d).substr(0, show(d).find(" t")), "regression/roundtrip", "written and loaded: " + show(e) + " instead of " + show(d));
        unlink((S.scratch + "/rw.csv").c_str()); unlink((S.scratch + "/r.csv").c_str()); } }); });
    // txt files (two leading columns, no classes) and the text written for plotting
    for (int n = 1; n <= 5; n++) for (int dim = 1; dim <= 4; dim++) for (int v = 0; v < NV; v++) kase("txt", "txt " + std::to_string(n) + " x " + std::to_string(dim) + " from value " + std::to_string(v), [&] {
        std::string t; std::vector<std::vector<double>> X; for (int i = 0; i < n; i++) { X.push_back({}); t += std::to_string(7 * i) + " " + std::to_string(i + 1); for (int j = 0; j < dim; j++) { X[i].push_back(V[(v + i * 5 + j * 3) % NV]); t += " " + g(X[i][j]); } t += i % 2 ? " \n" : "\n"; }
        D d; bool ok = d.load(put("t.txt", t)); nontrivial(); count("files"); if (!expect(ok && (int)d.size() == n && (int)d.dim() == dim && !d.isEmpty(), "txt/shape", "loaded " + show(d) + " from " + t)) return;
        for (int i = 0; i < n; i++) expect(d.point(i)->Id() == i + 1 && d.point(i)->X() == [&] { mltk::Point<double> q; q = X[i]; return q.X(); }(), "txt/values", "loaded " + show(d) + " from " + t);
        std::vector<int> f(dim), ix(n); std::iota(f.begin(), f.end(), 1); std::iota(ix.begin(), ix.end(), 0); expect(d.getFeaturesNames() == f && d.getIndex() == ix, "txt/names", "names or index of " + show(d)); unlink((S.scratch + "/t.txt").c_str());
        std::vector<double> y; for (int i = 0; i < n; i++) y.push_back(i % 2 ? 1 : -1); D p = make(X, y); auto before = show(p); p.write(S.scratch + "/p", "plt"); expect(show(p) == before, "plt/source", "writing changed the dataset"); std::string w, r; for (int i = 0; i < n; i++) { w += g(y[i]); for (double x : X[i]) w += " " + g(x); w += "\n"; } std::ifstream in(S.scratch + "/p.plt"); std::stringstream ss; ss << in.rdbuf(); expect(ss.str() == w, "plt/text", "wrote " + ss.str() + " instead of " + w); unlink((S.scratch + "/p.plt").c_str());
    });
    // files which cannot be loaded are refused without touching the process
    // rows of every sequence of lengths: loaded if they are all the same, refused otherwise
    for (int n = 2; n <= (thorough() ? 6 : 5); n++) product(n, 3, [&](const std::vector<int>& l) { kase("ragged", "row lengths " + str(l), [&] { nontrivial(); bool same = true; for (int x : l) same &= x == l[0]; static const char* F[] = {"ra.csv", "rb.csv", "rc.data", "rd.txt", "re.arff", "rf.csv"}; for (int f = 0; f < 6; f++) { std::string t; for (int i = 0; i < n; i++) { std::string c = i % 2 ? "1" : "-1", q; int k = l[i] + 2; if (f == 3) { q = "1 " + std::to_string(i + 1); for (int j = 0; j < k; j++) q += " " + g(V[1 + (i + j) % 5]); } else if (f == 2) { q = c; for (int j = 0; j < k; j++) q += " " + std::to_string(j + 1) + ":" + g(V[1 + (i + j) % 5]); } else { char sep = f == 5 ? ';' : ','; std::string x; for (int j = 0; j < k; j++) x += (j ? std::string(1, sep) : "") + g(V[1 + (i + j) % 5]); q = f == 0 || f == 5 ? c + sep + x : x + sep + c; } t += q + "\n"; } auto p = put(F[f], t); D d; bool ok = f == 1 ? d.load(p, true) : d.load(p); count("files"); expectf(ok == same, "ragged", [&] { return std::string(ok ? "loaded " : "refused ") + F[f] + ": " + t; }); if (same && ok) expect((int)d.size() == n && (int)d.dim() == l[0] + 2, "ragged/shape", "loaded " + show(d) + " from " + t); unlink(p.c_str()); } }); });
    kase("refused", "refused paths", [&] { for (std::string p : {"", "nofile", "/nonexistent.csv", "x.unknown", "nofile.data", "noext/", ".", "a.b.c"}) { D d; expect(!d.load(p) && !d.load(p, true), "refused/load", "loading '" + p + "' succeeded"); D e = tagged({1, 2}); count("refused"); } D d; expect(!d.load(put("bad.csv", "1,2,3\n1,2\n")), "refused/ragged", "a csv file with rows of different lengths was loaded"); expect(!d.load(put("bad.data", "1 1:2 2:3\n1 1:2\n")), "refused/ragged", "a data file with rows of different lengths was loaded"); expect(!d.load(put("bad.txt", "1 1 2 3\n1 2 2\n")), "refused/ragged", "a txt file with rows of different lengths was loaded"); expect(!d.load(put("bad.arff", "1,2,3\n1,2\n")), "refused/ragged", "an arff file with rows of different lengths was loaded"); nontrivial(); });
}
