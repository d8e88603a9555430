// C35: what the plotting functions ask gnuplot to draw is the samples, by class, and the hyperplane of the solution.
// gnuplot is replaced by a stand-in that records what it is sent; file effects stay in the scratch directory of an unprivileged user.
#include "dset.hpp"
#include <sys/prctl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <filesystem>
#include "ufjfmltk/visual/Visualization.hpp"
using namespace ds; using namespace vf; using mltk::Solution; using Vis = mltk::visualize::Visualization<double>; namespace fs_ = std::filesystem;
static int opened = 0, closed = 0; static std::vector<std::string> logs; static std::map<std::string, std::string> seen;
extern "C" FILE* popen(const char*, const char*) { std::string n = "gp." + std::to_string(opened++ % 64); logs.push_back(n); seen.erase(n); return fopen(n.c_str(), "w"); }
extern "C" int pclose(FILE* f) { closed++; return fclose(f); }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::vector<std::string> split(const std::string& s, char d, bool quotes) { std::vector<std::string> r(1); bool q = false; int b = 0; for (char c : s) { if (c == '\'') q = !q; if (c == '(') b++; if (c == ')') b--; if (c == d && !(quotes && (q || b))) r.push_back(""); else r.back() += c; } for (auto& x : r) { while (!x.empty() && isspace((unsigned char)x[0])) x.erase(0, 1); while (!x.empty() && isspace((unsigned char)x.back())) x.pop_back(); } return r; }
typedef std::vector<double> V; typedef std::vector<V> VV;
static VV table(const std::string& f) { std::ifstream i(f); VV t; std::string l; while (std::getline(i, l)) { std::istringstream s(l); V v; std::string w; while (s >> w) v.push_back(std::strtod(w.c_str(), nullptr)); if (!v.empty()) t.push_back(v); } return t; }
struct Item { std::string title, what; bool file = false; VV pts; V lin; };            // lin: coefficients of x, y and 1
struct Plot { bool ok = false, three = false; std::vector<Item> items; std::map<std::string, std::string> sets; std::string text; };
static std::string inq(const std::string& s, size_t from = 0) { size_t a = s.find('\'', from); if (a == s.npos) return ""; size_t b = s.find('\'', a + 1); return b == s.npos ? "" : s.substr(a + 1, b - a - 1); }
static V linear(const std::string& e) { V r(3, 0.); const char* p = e.c_str(); double sg = 1; while (*p) { while (*p == ' ' || *p == '+') p++; if (!*p) break; if (*p == '-' && (p[1] == ' ')) { sg = -1; p++; continue; } char* n; double c = std::strtod(p, &n); if (n == p) { c = 1; if (*p == 'x' || *p == 'y') n = (char*)p; else return {}; } p = n; while (*p == ' ') p++; int k = 2; if (*p == '*') { p++; while (*p == ' ') p++; } if (*p == 'x') k = 0, p++; else if (*p == 'y') k = 1, p++; r[k] += sg * c; sg = 1; while (*p == ' ') p++; } return r; }
static Plot parse(const std::string& script) {
    Plot P; P.text = script; std::map<std::string, std::string> fun; std::string all = script; std::replace(all.begin(), all.end(), ';', '\n');
    for (auto& st : split(all, '\n', false)) {
        if (st.compare(0, 4, "set ") == 0) { auto w = st.substr(4); size_t b = w.find(' '); P.sets[w.substr(0, b)] = b == w.npos ? "" : w.substr(b + 1); continue; }
        bool s3 = st.compare(0, 6, "splot ") == 0;
        if (s3 || st.compare(0, 5, "plot ") == 0) { P.ok = true; P.three = s3; P.items.clear();
            for (auto& it : split(st.substr(s3 ? 6 : 5), ',', true)) { if (it.empty()) continue; Item I; I.what = it; size_t t = it.find(" title "); if (t != it.npos) I.title = inq(it, t);
                if (it[0] == '\'') { I.file = true; auto tab = table(inq(it)); size_t u = it.find(" using "); std::vector<int> cols; if (u != it.npos) { std::istringstream ss(it.substr(u + 7)); int c; char d; while (ss >> c) { cols.push_back(c); if (!(ss >> d) || d != ':') break; } }
                    for (auto& r : tab) { V v; if (cols.empty()) v = r; else for (int c : cols) v.push_back(c >= 1 && c <= (int)r.size() ? r[c - 1] : NAN); I.pts.push_back(v); } }
                else { auto f = it.substr(0, it.find(')') + 1); if (!fun.count(f)) { P.ok = false; } else I.lin = linear(fun[f]); }
                P.items.push_back(I); }
            continue; }
        size_t e = st.find(" = "); if (e != st.npos && st.find('(') < e) fun[st.substr(0, e)] = st.substr(e + 3);
    }
    return P;
}
static double sx(double d) { std::ostringstream o; o << d; return std::strtod(o.str().c_str(), nullptr); } // as printed
static bool range(const Plot& P, const std::string& ax, double& a, double& b) { auto i = P.sets.find(ax); return i != P.sets.end() && sscanf(i->second.c_str(), "[%lf:%lf]", &a, &b) == 2; }
struct Want { bool save; std::string title, fmt, xl, yl, zl; };
static void common(const Plot& P, const std::string& key, const Want& w, bool three) {
    auto has = [&](const std::string& k, const std::string& v) { auto i = P.sets.find(k); return i != P.sets.end() && i->second == v; };
    if (!expect(P.ok, key + "/plot", "nothing is plotted or an undefined function: " + P.text)) return;
    expect(P.three == three, key + "/kind", std::string(three ? "splot" : "plot") + " expected: " + P.text);
    if (!w.title.empty()) expect(has("title", "'" + w.title + "'"), key + "/title", "title " + w.title + " is missing: " + P.text);
    if (!w.xl.empty()) expect(has("xlabel", "'" + w.xl + "'"), key + "/label", "x label is missing: " + P.text);
    if (!w.yl.empty()) expect(has("ylabel", "'" + w.yl + "'"), key + "/label", "y label is missing: " + P.text);
    if (three && !w.zl.empty()) expect(has("zlabel", "'" + w.zl + "'"), key + "/label", "z label is missing: " + P.text);
    if (w.save) { auto o = P.sets.find("output"); std::string f = o == P.sets.end() ? "" : inq(o->second); expect(has("terminal", w.fmt) && f.size() > w.fmt.size() + 1 && f.substr(f.size() - w.fmt.size() - 1) == "." + w.fmt, key + "/save", "not saved as " + w.fmt + ": " + P.text); }
    else expect(!P.sets.count("output") && P.sets.count("terminal"), key + "/save", "saved unasked: " + P.text);
    auto norm = [](std::string s) { std::replace(s.begin(), s.end(), ';', '\n'); std::vector<std::string> r; for (auto& x : split(s, '\n', false)) if (!x.empty()) r.push_back(x); return r; };
    auto got = norm(P.text); bool tail = false; std::vector<std::string> last; for (auto& l : logs) { auto t = slurp(l); if (t == seen[l]) continue; seen[l] = t; auto sent = last = norm(t); if (sent.size() >= got.size() && std::equal(got.begin(), got.end(), sent.end() - got.size())) tail = true; }
    expectf(tail, key + "/sent", [&] { return "gnuplot got " + str(last) + " instead of " + str(got); });
}
static void within(const Plot& P, const std::string& key, const VV& pts) { // no point lies outside of the ranges
    const char* ax[] = {"xrange", "yrange", "zrange"}; for (int j = 0; j < 3; j++) { double a, b; if (!P.sets.count(ax[j])) continue; if (!expect(range(P, ax[j], a, b) && a < b, key + "/range", std::string("not a range: ") + ax[j] + " " + P.sets.at(ax[j]))) continue; for (auto& p : pts) if (j < (int)p.size()) expectf(p[j] >= a - 1e-6 && p[j] <= b + 1e-6, key + "/range", [&] { return std::string(ax[j]) + " " + P.sets.at(ax[j]) + " cuts off " + num(p[j]); }); }
}
static VV cols(const D& d, double cls, const std::vector<int>& f, bool all, bool y) { VV r; for (auto& p : pts(d)) if (all || p.y == cls) { V v; for (int j : f) v.push_back(sx(p.x[j])); if (y) v.push_back(sx(p.y)); r.push_back(v); } return r; }
// the files of the plot are exactly the classes of the dataset
static int classes_shown(const Plot& P, const std::string& key, const D& d, const std::vector<int>& f, int first = 0) {
    auto cl = d.classes(); auto nm = d.classesNames(); int files = 0; for (size_t i = first; i < P.items.size(); i++) files += P.items[i].file;
    expectf(files == (int)cl.size(), key + "/classes", [&] { return std::to_string(files) + " files are plotted for " + std::to_string(cl.size()) + " classes: " + P.text; });
    for (size_t c = 0; c < cl.size(); c++) { int n = 0; for (size_t i = first; i < P.items.size(); i++) if (P.items[i].file && P.items[i].title == nm[c]) { n++; auto w = cols(d, cl[c], f, false, false); VV g; for (auto& r : P.items[i].pts) g.push_back(V(r.begin(), r.begin() + std::min(r.size(), f.size()))); expectf(g == w, key + "/points", [&] { return "class " + nm[c] + " is plotted with other points: " + P.text; }); } expectf(n == 1, key + "/titles", [&] { return "class " + nm[c] + " is plotted " + std::to_string(n) + " times: " + P.text; }); }
    return files;
}
static std::vector<V> lines_of(const Plot& P) { std::vector<V> r; for (auto& i : P.items) if (!i.file) r.push_back(i.lin); return r; }
// each function is one of the planes w.p + b = v, for exactly the values wanted
static void planes(const Plot& P, const std::string& key, const V& w, double b, std::vector<double> want) {
    auto L = lines_of(P); if (!expect(L.size() == want.size(), key + "/planes", std::to_string(L.size()) + " functions are plotted instead of " + std::to_string(want.size()) + ": " + P.text)) return;
    std::vector<double> got; for (auto& l : L) { if (l.size() != 3) { fail(key + "/function", "not a linear function: " + P.text); return; } double v0 = 0; for (int a = 0; a < 3; a++) for (int c = 0; c < 3; c++) { double x = a * 3 - 2, y = c * 2 - 1.5, v; if (w.size() == 2) v = w[0] * x + w[1] * (l[0] * x + l[1] * y + l[2]) + b; else v = w[0] * x + w[1] * y + w[2] * (l[0] * x + l[1] * y + l[2]) + b; if (!a && !c) v0 = v; if (!expectf(close(v, v0, 1e-6), key + "/function", [&] { return "a function is not parallel to the hyperplane: " + P.text; })) return; } got.push_back(v0); }
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); for (size_t i = 0; i < got.size(); i++) expectf(close(got[i], want[i], 1e-6), key + "/planes", [&] { return "planes at " + str(got) + " instead of " + str(want) + ": " + P.text; });
}
static Solution sol(const V& w, double b, double margin, double norm) { Solution s; s.w = mltk::Point<double>(w.size()); for (size_t i = 0; i < w.size(); i++) s.w[i] = w[i]; s.bias = b; s.margin = margin; s.norm = norm; return s; }
static void write_csv(const std::string& f, const VV& X, const std::vector<std::string>& c) { std::ofstream o(f); for (size_t i = 0; i < X.size(); i++) { o << c[i]; for (double x : X[i]) o << "," << num(x); o << "\n"; } }
static const double PV[5][6] = {{0.4, -0.3, 0.25, 0.1, 0, -0.45}, {1, 2, 3, 4, 5, 6}, {-5.5, -2.25, -7, -1.5, -3, -9}, {1234.5, -99999, 6e5, 0.5, 12, 3}, {2, 2, 2, 2, 2, 2}};
static VV coords(int n, int dim, int pat) { VV X; for (int i = 0; i < n; i++) { V v; for (int j = 0; j < dim; j++) v.push_back(PV[pat][(i + 2 * j + i * j) % 6]); X.push_back(v); } return X; }
static const std::vector<std::vector<std::string>> NM = {{"1", "-1"}, {"red", "blue", "green"}, {"a.b", "c_d"}, {"Iris-setosa", "Iris-b_c.d", "2"}, {"7", "3", "5"}};
struct Stub { D d; int k; int trained = 0, set = 0; std::vector<std::pair<V, double>> asked; void setSamples(const D& s) { d = s; set++; } bool train() { trained++; return true; } double evaluate(const P& p) { double s = k == 0 ? 1 : k == 1 ? (p[0] + p[1] > 1 ? 1 : -1) : k == 2 ? (p[0] * p[1] > 0 ? 3 : 5) : int(p[0] - p[1]) % 4; V v(p.X().begin(), p.X().end()); asked.push_back({v, s}); return s; } };
static const int NOP = 8; static const char* OPN[] = {"plot2D", "plot3D", "2D hyperplane", "3D hyperplane", "2D hyperplane without margin", "decision surface", "vectors 2D", "vectors 3D"};
static void op(Vis& v, const D& d, int o, int x, int y, int z, const Want& w, double scale, const std::string& key) {
    nontrivial(S.desc + OPN[o] + std::to_string(x) + std::to_string(y) + std::to_string(z)); count("plots"); transition(); auto before = show(d); V W = {1.5, -2, 0.75}; 
    if (o == 0) { auto P = parse(v.plot2D(x, y, w.save, scale, w.title, w.fmt, w.xl, w.yl)); common(P, key, w, false); classes_shown(P, key, d, {x, y}); within(P, key, cols(d, 0, {x, y}, true, false)); expect(lines_of(P).empty(), key + "/planes", "a function is plotted: " + P.text); }
    if (o == 1) { auto P = parse(v.plot3D(x, y, z, w.save, scale, w.title, w.fmt, w.xl, w.yl, w.zl)); common(P, key, w, true); classes_shown(P, key, d, {x, y, z}); within(P, key, cols(d, 0, {x, y, z}, true, false)); expect(lines_of(P).empty(), key + "/planes", "a function is plotted: " + P.text); }
    if (o == 2 || o == 4) { double m = o == 4 ? 0 : 0.5, n = 2.5; auto P = parse(v.plot2DwithHyperplane(x, y, sol(W, 0.3, m, n), w.save, scale, w.title, w.fmt, w.xl, w.yl)); common(P, key, w, false); classes_shown(P, key, d, {x, y}); within(P, key, cols(d, 0, {x, y}, true, false)); planes(P, key, {W[x], W[y]}, 0.3, m ? std::vector<double>{0, -m * n, m * n} : std::vector<double>{0}); }
    if (o == 3) { double m = 0.5, n = 2.5; auto P = parse(v.plot3DwithHyperplane(x, y, z, sol(W, 0.3, m, n), w.save, scale, w.title, w.fmt, w.xl, w.yl, w.zl)); common(P, key, w, true); classes_shown(P, key, d, {x, y, z}); within(P, key, cols(d, 0, {x, y, z}, true, false)); planes(P, key, {W[x], W[y], W[z]}, 0.3, {0, -m * n, m * n}); }
    if (o == 5) for (int t = 0; t < 2; t++) { int G = 2 + (x + y + t) % 4; Stub s; s.k = (x + 2 * y) % 4; auto P = parse(v.plotDecisionSurface2D(s, x, y, t, G, w.save, scale, w.title, w.fmt, w.xl, w.yl)); { Want q = w; q.zl = ""; common(P, key, q, true); }
        if (!expect(P.items.size() >= 1 && P.items[0].file, key + "/surface", "no surface is plotted: " + P.text)) continue; classes_shown(P, key, d, {x, y}, 1); within(P, key, cols(d, 0, {x, y}, true, false));
        expect(s.trained == !t, key + "/trained", "the learner was trained " + std::to_string(s.trained) + " times"); expectf((int)s.d.size() == (int)d.size() && s.d.dim() == 2 && [&] { auto a = pts(s.d), b = pts(d); for (size_t i = 0; i < a.size(); i++) if (a[i].x != V{b[i].x[x], b[i].x[y]} || a[i].y != b[i].y) return false; return true; }(), key + "/learner-samples", [&] { return "the learner got " + show(s.d) + " for features " + std::to_string(x) + " and " + std::to_string(y) + " of " + show(d); });
        auto& g = P.items[0].pts; double x0, x1, y0, y1; bool flat = !range(P, "xrange", x0, x1) || !range(P, "yrange", y0, y1); expectf((int)g.size() == G * G && (int)s.asked.size() >= G * G, key + "/surface", [&] { return std::to_string(g.size()) + " points of the surface"; });
        std::set<std::pair<int, int>> seen; for (auto& r : g) { if (r.size() != 3) { fail(key + "/surface", "surface line"); break; } if (!flat) { double tx = x1 > x0 ? (r[0] - x0) / (x1 - x0) * (G - 1) : 0, ty = (r[1] - y0) / (y1 - y0) * (G - 1); int i = std::lround(tx), j = std::lround(ty); expectf(std::fabs(tx - i) < 1e-2 && std::fabs(ty - j) < 1e-2 && seen.insert({i, j}).second, key + "/grid", [&] { return "the surface is not a grid over the ranges: " + num(r[0]) + " " + num(r[1]); }); } bool f = false; for (auto& a : s.asked) if (sx(a.first[0]) == r[0] && sx(a.first[1]) == r[1]) f = f || close(a.second, r[2], 1e-5); expectf(f, key + "/surface", [&] { return "the surface at " + str(r) + " is not what the learner answers"; }); }
    }
    if (o == 6 || o == 7) { auto c = [&](int j) { mltk::Point<double> p(d.size()); for (size_t i = 0; i < d.size(); i++) p[i] = d(i)[j]; return p; }; Plot P = o == 6 ? parse(v.plot2D(c(x), c(y), w.save, scale, w.title, w.fmt, w.xl, w.yl)) : parse(v.plot3D(c(x), c(y), c(z), w.save, scale, w.title, w.fmt, w.xl, w.yl, w.zl)); common(P, key, w, o == 7); std::vector<int> f = {x, y}; if (o == 7) f.push_back(z); auto e = cols(d, 0, f, true, false); expect(P.items.size() == 1 && P.items[0].pts == e, key + "/points", "other points are plotted: " + P.text); within(P, key, e); }
    expect(show(d) == before, key + "/samples", "plotting changed the samples");
}
static const int ROP = 4; static const char* RON[] = {"1D regression", "1D regression with its line", "2D regression", "2D regression with its plane"};
static void rop(Vis& v, const D& d, int o, int x, int y, const Want& w, double scale, const std::string& key) {
    nontrivial(S.desc + RON[o] + std::to_string(x) + std::to_string(y)); count("plots"); transition(); auto before = show(d); V W = {1.5, -2, 0.75}; W.resize(d.dim()); Solution s = sol(W, -0.4, 0, 1); Plot P;
    if (o == 0) P = parse(v.plot1DRegresion(x, w.save, scale, w.title, w.fmt, w.xl, w.yl)); if (o == 1) P = parse(v.plot1DRegresionHyperplane(x, s, w.save, scale, w.title, w.fmt, w.xl, w.yl)); if (o == 2) P = parse(v.plot2DRegresion(x, y, w.save, scale, w.title, w.fmt, w.xl, w.yl, w.zl)); if (o == 3) P = parse(v.plot2DRegresionHyperplane(x, y, s, w.save, scale, w.title, w.fmt, w.xl, w.yl, w.zl));
    common(P, key, w, o > 1); std::vector<int> f = {x}; if (o > 1) f.push_back(y); auto e = cols(d, 0, f, true, true); int n = 0; for (auto& i : P.items) if (i.file) { n++; expect(i.pts == e, key + "/points", "other points are plotted: " + P.text); } expect(n == 1, key + "/points", std::to_string(n) + " files are plotted: " + P.text); within(P, key, e);
    auto L = lines_of(P); expect(L.size() == size_t(o % 2), key + "/planes", "functions: " + P.text); if (o % 2 && L.size() == 1 && L[0].size() == 3) expect(close(L[0][0], W[x], 1e-6) && close(L[0][1], o == 3 ? W[y] : 0, 1e-6) && close(L[0][2], -0.4, 1e-6), key + "/function", "not the function of the solution: " + P.text);
    expect(show(d) == before, key + "/samples", "plotting changed the samples");
}
static std::vector<std::string> folders() { std::vector<std::string> r; for (auto& e : fs_::directory_iterator(".")) if (e.path().filename().string().find("plottemp") == 0) r.push_back(e.path().filename().string()); return r; }
static void clean(const std::string& key, int extra = 0) { auto f = folders(); expect((int)f.size() == extra, key + "/temporary", "temporary folders left: " + str(f)); expect(opened == closed, key + "/sessions", std::to_string(opened) + " gnuplot sessions opened, " + std::to_string(closed) + " closed"); for (auto& x : f) fs_::remove_all(x); std::error_code ec; fs_::remove_all("output", ec); logs.clear(); seen.clear(); opened = closed = 0; }
static D loaded(const VV& X, const std::vector<std::string>& c, const char* f = "set.csv") { write_csv(f, X, c); D d; d.load(f); return d; }
void vf::run() {
    if (S.scratch.empty()) S.scratch = "/tmp/sq/scr_c35/0";
    (void)!chown(S.scratch.c_str(), 65534, 65534); if (chdir(S.scratch.c_str())) return; setenv("DISPLAY", ":0", 1); setenv("PATH", "bin", 1);
    (void)!setegid(65534); if (seteuid(65534)) { fprintf(stderr, "cannot drop privileges\n"); _exit(9); } prctl(PR_SET_DUMPABLE, 1);
    mkdir("bin", 0755); { std::ofstream o("bin/gnuplot"); o << "#!/bin/sh\n"; } chmod("bin/gnuplot", 0755);
    Want w0{false, "", "svg", "x", "y", "z"}, w1{true, "A title", "png", "first", "second", "third"};
    // every sequence of class names up to 4 rows, every plot of every choice of axes
    int N = thorough() ? 5 : 4;
    for (size_t a = 0; a < NM.size(); a++) for (int n = 1; n <= N; n++) product(n, NM[a].size(), [&](const std::vector<int>& l) { for (int pat = 0; pat < 5; pat++) kase("classes", "classes " + str(NM[a]) + " rows " + str(l) + " values " + std::to_string(pat), [&] {
        std::vector<std::string> c; for (int i : l) c.push_back(NM[a][i]); D d = loaded(coords(n, 3, pat), c); state(show(d)); int h = a; for (int i : l) h = h * 3 + i;
        for (int sh = 0; sh < 2; sh++) { { Vis v(d, sh, false); for (int o = 0; o < NOP; o++) for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) for (int z = 0; z < 3; z++) { if (x == y || y == z || x == z) continue; if (!thorough() && (h + o + x * 2 + y + sh) % 4) continue; const Want& w = (x + y + o + sh) % 2 ? w0 : w1; op(v, d, o, x, y, z, w, 1 + 0.2 * ((x + o + pat) % 2), "classes"); } } clean("classes"); }
    }); });
    // every sequence of operations on two objects alive at once, with the samples exchanged
    int L = thorough() ? 4 : 3; static const char* HN[] = {"plot2D", "hyperplane", "3D", "surface", "set", "set regression", "other plots", "regression plot", "add a point"};
    product(L, 9, [&](const std::vector<int>& q) { kase("history", [&] { std::string t = "history"; for (int i : q) t += std::string(" ") + HN[i]; return t; }(), [&] {
        D A = loaded(coords(4, 4, 1), {"red", "blue", "red", "green"}, "aa.csv"); A.removeFeatures({2}); D B = loaded(coords(3, 3, 3), {"1", "1", "-1"}, "bb.csv"), R; R.setType("Regression"); for (auto& r : coords(3, 3, 0)) { P p = mk(r, r[0] * 2 + 0.25); R.insertPoint(p); }
        { Vis v, u(B, false, false); v.setSample(A); const D* cur = &A; auto plot = [&](int o) { if (cur == &R) rop(v, R, o % ROP, 1, 2, w0, 1, "history"); else op(v, *cur, o, 1, 0, 2, o % 2 ? w0 : w1, 1, "history"); };
            for (int i : q) { switch (i) { case 0: plot(0); break; case 1: plot(2); break; case 2: plot(1); break; case 3: plot(5); break; case 4: cur = cur == &A ? &B : &A; v.setSample(*(D*)cur); break; case 5: cur = &R; v.setSample(R); break; case 6: op(u, B, 0, 0, 2, 1, w1, 1, "history"); break; case 7: plot(3); break; case 8: { auto p = mk({0.5 + cur->size(), -2, 7}, (*cur)(0).Y() + (cur == &R ? 1 : 0)); ((D*)cur)->insertPoint(p); v.setSample(*(D*)cur); if (cur == &B) u.setSample(B); break; } } }
            expect(folders().size() == 2, "history/folders", "folders of two objects: " + str(folders())); plot(1); op(u, B, 3, 2, 1, 0, w0, 1, "history"); state(std::to_string(cur == &A) + std::to_string(cur == &R)); }
        clean("history");
    }); });
    // regression
    for (int n = 1; n <= N + 1; n++) for (int dim = 1; dim <= 3; dim++) for (int pat = 0; pat < 5; pat++) for (int yv = 0; yv < 4; yv++) kase("regression", "regression " + std::to_string(n) + " x " + std::to_string(dim) + " values " + std::to_string(pat) + " targets " + std::to_string(yv), [&] {
        D d; d.setType("Regression"); auto X = coords(n, dim, pat); for (int i = 0; i < n; i++) d.insertPoint(mk(X[i], yv == 0 ? i + 0.5 : yv == 1 ? -i * 2.25 : yv == 2 ? 3 : PV[3][i])); if ((n + pat + yv) % 2) d.setName("named"); state(show(d));
        for (int sh = 0; sh < 2; sh++) { { Vis v(d, sh, false); for (int o = 0; o < ROP; o++) for (int x = 0; x < dim; x++) for (int y = 0; y < dim; y++) { if (o > 1 && x == y) continue; if (o < 2 && y) continue; rop(v, d, o, x, y, (x + o + sh) % 2 ? w0 : w1, 1 + 0.2 * (o % 2), "regression"); } } clean("regression"); }
    });
    // kept files
    for (int n = 1; n <= 4; n++) for (int k = 0; k < 2; k++) kase("keep", "kept files of " + std::to_string(n) + " rows", [&] { std::vector<std::string> c; for (int i = 0; i < n; i++) c.push_back(NM[1][i % 3]); D d = loaded(coords(n, 2, 1), c); { Vis v(d, k, true); op(v, d, 0, 0, 1, 0, w0, 1, "keep"); } auto f = folders(); if (expect(f.size() == 1, "keep/folder", "folders: " + str(f))) for (size_t i = 0; i < d.classes().size(); i++) expect(table(f[0] + "/" + d.classesNames()[i] + ".plt") == cols(d, d.classes()[i], {0, 1}, false, false), "keep/files", "the kept file of class " + d.classesNames()[i]); clean("keep", 1); nontrivial(); transition(); });
    (void)!seteuid(0); (void)!setegid(0);
}
