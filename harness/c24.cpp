// C24: arithmetic on points is element-wise, reductions and norms are what they are defined to be, operands stay as they are.
#include "dset.hpp"
#include "ufjfmltk/core/Point.hpp"
using namespace ds; using namespace vf; using V = std::vector<double>; using IP = mltk::Point<int>; using IV = std::vector<int>;
template <class X, class Y> static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || close(a, b, 1e-12); }
static bool eq(double a, double b) { return (a != a && b != b) || a == b || close(a, b, 1e-12); }
template <class F> static void is(const P& p, const P& a, F f, const char* key) { count("expressions"); bool ok = p.size() == a.size(); size_t i = 0; for (; ok && i < a.size(); i++) ok = eq(p[i], f(i)); expectf(ok, key, [&] { V e; for (size_t j = 0; j < a.size(); j++) e.push_back(f(j)); return std::string("gives ") + str(rp(p).x) + ", element by element it is " + str(e) + " for " + str(rp(a).x); }); }
template <class F> static void isi(const IP& p, const IP& a, F f, const char* key) { count("expressions"); bool ok = p.size() == a.size(); for (size_t i = 0; ok && i < a.size(); i++) ok = p[i] == f(i); expect(ok, key, "the expression over integers differs from its elements"); }
#define FOUR(M) M(+) M(-) M(*) M(/)
static void pair(const V& va, const V& vb) {
    P a(va), b(vb); a.Y() = 3; a.Id() = 7; a.Alpha() = 0.5; b.Y() = -1; b.Id() = 2; const P &ca = a, &cb = b; std::string sa = show({rp(a)}), sb = show({rp(b)}); double s = 1.75; int n = 3; size_t N = va.size(); transition();
#define ONE(o) { P r = ca o cb; is(r, a, [&](size_t i) { return va[i] o vb[i]; }, "points " #o); P t(N); t = ca o cb; is(t, a, [&](size_t i) { return va[i] o vb[i]; }, "assigned " #o); is(P(ca o s), a, [&](size_t i) { return va[i] o s; }, "scalar right " #o); is(P(s o ca), a, [&](size_t i) { return s o va[i]; }, "scalar left " #o); is(P(ca o n), a, [&](size_t i) { return va[i] o 3; }, "integer right " #o); is(P(n o ca), a, [&](size_t i) { return 3 o va[i]; }, "integer left " #o); is(P(ca o ca), a, [&](size_t i) { return va[i] o va[i]; }, "itself " #o); \
    { P c = a; c o##= b; is(c, a, [&](size_t i) { return va[i] o vb[i]; }, "compound point " #o); c = a; c o##= s; is(c, a, [&](size_t i) { return va[i] o s; }, "compound scalar " #o); c = a; c o##= n; is(c, a, [&](size_t i) { return va[i] o 3; }, "compound integer " #o); c = a; c o##= c; is(c, a, [&](size_t i) { return va[i] o va[i]; }, "compound itself " #o); c = a; c o##= (b + a); is(c, a, [&](size_t i) { return va[i] o (vb[i] + va[i]); }, "compound expression " #o); c = a; c = c o b; is(c, a, [&](size_t i) { return va[i] o vb[i]; }, "assigned to an operand " #o); c = a; c = b o c; is(c, a, [&](size_t i) { return vb[i] o va[i]; }, "assigned to an operand " #o); } \
    is(P((ca o cb) + cb), a, [&](size_t i) { return (va[i] o vb[i]) + vb[i]; }, "nested left + " #o); is(P((ca o cb) - cb), a, [&](size_t i) { return (va[i] o vb[i]) - vb[i]; }, "nested left - " #o); is(P((ca o cb) * cb), a, [&](size_t i) { return (va[i] o vb[i]) * vb[i]; }, "nested left * " #o); is(P((ca o cb) / cb), a, [&](size_t i) { return (va[i] o vb[i]) / vb[i]; }, "nested left / " #o); \
    is(P(ca + (ca o cb)), a, [&](size_t i) { return va[i] + (va[i] o vb[i]); }, "nested right + " #o); is(P(ca - (ca o cb)), a, [&](size_t i) { return va[i] - (va[i] o vb[i]); }, "nested right - " #o); is(P(ca * (ca o cb)), a, [&](size_t i) { return va[i] * (va[i] o vb[i]); }, "nested right * " #o); is(P(ca / (ca o cb)), a, [&](size_t i) { return va[i] / (va[i] o vb[i]); }, "nested right / " #o); \
    is(P((ca o 2.5) - (1.25 o cb)), a, [&](size_t i) { return (va[i] o 2.5) - (1.25 o vb[i]); }, "scalars inside " #o); is(P(((ca o cb) * 2.0) o (cb - 0.5)), a, [&](size_t i) { return ((va[i] o vb[i]) * 2.0) o (vb[i] - 0.5); }, "deep " #o); \
    expect(eq((ca o cb).sum(), [&] { double t = 0; for (size_t i = 0; i < N; i++) t += va[i] o vb[i]; return t; }()), "sum of " #o, "the sum of the expression differs"); is(P(mltk::abs(ca o cb)), a, [&](size_t i) { return std::fabs(va[i] o vb[i]); }, "abs of " #o); is(P(mltk::exp(ca o cb)), a, [&](size_t i) { return std::exp(va[i] o vb[i]); }, "exp of " #o); is(P(mltk::pow(ca o cb, 2)), a, [&](size_t i) { return std::pow(va[i] o vb[i], 2); }, "pow of " #o); is(P(mltk::cos(ca o cb) + mltk::sin(cb)), a, [&](size_t i) { return std::cos(va[i] o vb[i]) + std::sin(vb[i]); }, "cos and sin of " #o); is(P(mltk::log(mltk::abs(ca o cb) + 1.0)), a, [&](size_t i) { return std::log(std::fabs(va[i] o vb[i]) + 1.0); }, "log of " #o); }
    FOUR(ONE)
    double dt = 0; for (size_t i = 0; i < N; i++) dt += va[i] * vb[i]; expect(eq(mltk::dot(ca, cb), dt), "dot", "dot product " + num(mltk::dot(ca, cb)) + " of " + sa + sb); expect((ca == cb) == (va == vb) && (ca != cb) == (va != vb), "equality", sa + sb);
    P c = a; c = b; expect(rp(c).x == vb, "assign", "assignment"); c = va; expect(rp(c).x == va, "assign", "assignment of a vector"); c = s; is(c, a, [&](size_t) { return s; }, "assign scalar"); P d(a); expect(show({rp(d)}) == sa, "copy", "a copy " + show({rp(d)}) + " of " + sa); d[0] += 1; if (N > 1) d.X()[1] = 9; d.Y() = 0;
    expect(show({rp(a)}) == sa && show({rp(b)}) == sb, "operands", "an operand changed: " + show({rp(a)}) + show({rp(b)}) + " from " + sa + sb);
}
static void single(const V& v) {
    P a(v); size_t N = v.size(); transition(); auto red = [&](auto f) { double s = 0; for (double x : v) s += f(x); return s; }; V sv = v; std::sort(sv.begin(), sv.end());
    expect(eq(a.sum(), red([](double x) { return x; })), "sum", str(v)); expect(eq(a.sum([](double x) { return x * x + 1; }), red([](double x) { return x * x + 1; })), "sum of a function", str(v)); expect(mltk::max(a) == sv.back() && mltk::min(a) == sv[0], "max and min", num(mltk::max(a)) + " " + num(mltk::min(a)) + " of " + str(v)); expect(mltk::max(mltk::abs(a) * -1.0) == -red([&](double x) { return 0 * x; }) - [&] { double m = 1e300; for (double x : v) m = std::min(m, std::fabs(x)); return m; }(), "max of an expression", str(v));
    double mx = 0; for (double x : v) mx = std::max(mx, std::fabs(x)); for (int q = 0; q <= 4; q++) { double e = q == 0 ? mx : std::pow(red([&](double x) { return std::pow(std::fabs(x), q); }), 1.0 / q); expectf(eq(a.norm(q), e), "norm", [&] { return "norm " + std::to_string(q) + " of " + str(v) + " is " + num(a.norm(q)) + ", expected " + num(e); }); expect(eq(mltk::norm(a, q), e), "norm", "free function"); count("norms"); } expect(eq(a.norm(), std::sqrt(red([](double x) { return x * x; }))), "norm", "default norm of " + str(v));
    if (mx > 0) for (double q : {1.0, 2.0, 3.0, 1.5}) { double nn = std::pow(red([&](double x) { return std::pow(std::fabs(x), q); }), 1.0 / q); is(mltk::normalize(a, q), a, [&](size_t i) { return v[i] / nn; }, "normalize"); V w = v; is(mltk::normalize(w, q), a, [&](size_t i) { return v[i] / nn; }, "normalize a vector"); is(P(w), a, [&](size_t i) { return v[i] / nn; }, "normalize a vector"); }
    is(P(a % 3), a, [&](size_t i) { return std::fmod(v[i], 3); }, "modulo integer"); is(P(mltk::pow(a, 3)), a, [&](size_t i) { return std::pow(v[i], 3); }, "pow"); is(P(mltk::pow(mltk::abs(a), 0.5)), a, [&](size_t i) { return std::pow(std::fabs(v[i]), 0.5); }, "pow");
    expect(rp(a).x == v && V(a.begin(), a.end()) == v && a.X() == v && a.size() == N, "operands", "the point changed");
    if (N <= 6) product(N, 2, [&](const std::vector<int>& m) { std::vector<size_t> f; V e; for (size_t i = 0; i < N; i++) if (m[i]) { f.push_back(N - 1 - i); } for (size_t i = 0; i < N; i++) if (m[N - 1 - i]) e.push_back(v[i]); P b = a; b.Y() = 4; b.Id() = 9; b.Alpha() = 2; auto s = b.selectFeatures(f); expect(rp(s).x == e && s.Y() == 4 && s.Id() == 9 && s.Alpha() == 2, "selectFeatures", show({rp(s)}) + " from " + str(v) + " features " + str(f)); });
    std::ostringstream o; a.Id() = 5; a.Y() = 2; o << a; std::ostringstream e; e << "5:["; for (size_t i = 0; i < N; i++) e << v[i] << ", "; e << 2 << "]"; expect(o.str() == e.str(), "print", o.str()); P u(v); std::ostringstream o2, e2; o2 << u; e2 << "["; for (size_t i = 0; i < N; i++) e2 << (i ? ", " : "") << v[i]; e2 << "]"; expect(o2.str() == e2.str(), "print", o2.str());
}
static void ints(const IV& va, const IV& vb) {
    IP a(va), b(vb); size_t N = va.size(); transition(); int n = 2; isi(IP(a + b), a, [&](size_t i) { return va[i] + vb[i]; }, "int +"); isi(IP(a - b), a, [&](size_t i) { return va[i] - vb[i]; }, "int -"); isi(IP(a * b), a, [&](size_t i) { return va[i] * vb[i]; }, "int *"); isi(IP(a * n), a, [&](size_t i) { return va[i] * n; }, "int *"); isi(IP(n * a + b), a, [&](size_t i) { return va[i] * n + vb[i]; }, "int *+"); isi(IP(a % 3), a, [&](size_t i) { return va[i] % 3; }, "int %"); isi(IP(mltk::abs(a)), a, [&](size_t i) { return std::abs(va[i]); }, "int abs"); isi(IP(mltk::pow(a - b, 2)), a, [&](size_t i) { return (va[i] - vb[i]) * (va[i] - vb[i]); }, "int pow");
    IP c = a; c += b; isi(c, a, [&](size_t i) { return va[i] + vb[i]; }, "int +="); IV vn = vb; for (auto& x : vn) if (!x) x = -4; IP nb(vn); for (int k : {2, -3, 5, 1}) { c = a; c /= k; isi(c, a, [&](size_t i) { return va[i] / k; }, "int /= scalar"); c = a; c += k; c *= k; isi(c, a, [&](size_t i) { return (va[i] + k) * k; }, "int += *= scalar"); c -= k; isi(c, a, [&](size_t i) { return (va[i] + k) * k - k; }, "int -= scalar"); isi(IP((a - b) / nb), a, [&](size_t i) { return (va[i] - vb[i]) / vn[i]; }, "int nested /"); } isi(IP(a / nb), a, [&](size_t i) { return va[i] / vn[i]; }, "int /"); c = a; c /= nb; isi(c, a, [&](size_t i) { return va[i] / vn[i]; }, "int /="); c = a; c *= nb; isi(c, a, [&](size_t i) { return va[i] * vn[i]; }, "int *="); mltk::Point<float> fa(N), fb(N), fc; for (size_t i = 0; i < N; i++) { fa[i] = va[i]; fb[i] = vn[i]; } fc = fa; fc /= fb; for (size_t i = 0; i < N; i++) expect(fc[i] == (float)va[i] / (float)vn[i], "float /=", str(va)); fc = fa; fc /= 3.0f; for (size_t i = 0; i < N; i++) expect(std::fabs(fc[i] - (float)va[i] / 3.0f) <= 1e-6 * std::abs(va[i]), "float /= scalar", str(va)); mltk::Point<unsigned> ua(N), uc; for (size_t i = 0; i < N; i++) ua[i] = std::abs(va[i]) * 3 + i; uc = ua; uc /= 4u; for (size_t i = 0; i < N; i++) expect(uc[i] == ua[i] / 4, "unsigned /= scalar", str(va)); uc = ua; uc *= 7u; for (size_t i = 0; i < N; i++) expect(uc[i] == ua[i] * 7, "unsigned *= scalar", str(va));
    c = a; c -= b; c *= 3; isi(c, a, [&](size_t i) { return (va[i] - vb[i]) * 3; }, "int -= *="); int s = 0, d = 0, mx = va[0], mn = va[0]; for (size_t i = 0; i < N; i++) { s += va[i]; d += va[i] * vb[i]; mx = std::max(mx, va[i]); mn = std::min(mn, va[i]); } expect(a.sum() == s && mltk::dot(a, b) == d && mltk::max(a) == mx && mltk::min(a) == mn, "int reductions", str(va)); P x(a); for (size_t i = 0; i < N; i++) expect(x[i] == va[i], "int to double", str(va));
}
// the scalar is an element of the point itself: its value before the operation counts, for every element
template <class T, bool EXPR> static void aliased(const V& v, const char* type) {
    using Q = mltk::Point<T>; std::vector<T> w(v.begin(), v.end()); size_t N = w.size(); transition();
    auto chk = [&](const Q& r, auto f, const char* what, size_t k) { count("expressions"); bool ok = r.size() == N; for (size_t i = 0; ok && i < N; i++) ok = eq(r[i], f(i)); expectf(ok, std::string("element as scalar ") + what, [&] { std::string x; for (auto y : r.X()) x += num(y) + " "; return std::string(type) + " point " + str(v) + " with its element " + std::to_string(k) + ": " + x; }); };
    for (size_t k = 0; k < N; k++) { T s = w[k];
#define AL(o) { Q p(w); p o##= p[k]; chk(p, [&](size_t i) { return T(w[i] o s); }, "compound " #o, k); if constexpr (EXPR) { Q q(w); q = q o q[k]; chk(q, [&](size_t i) { return T(w[i] o s); }, "right " #o, k); Q r(w); r = r[k] o r; chk(r, [&](size_t i) { return T(s o w[i]); }, "left " #o, k); Q t(w); t = (t o t[k]) + t[k]; chk(t, [&](size_t i) { return T(w[i] o s) + s; }, "twice " #o, k); } }
        AL(+) AL(-) AL(*) bool z = false; for (T x : w) z |= x == 0; if (!z) AL(/)
        Q p(w); p = p[k]; chk(p, [&](size_t) { return s; }, "assigned", k); }
}
void vf::run() {
    for (int n = 1; n <= (thorough() ? 5 : 4); n++) product(n, 4, [&](const std::vector<int>& x) { kase("aliased", "elements " + str(x), [&] { nontrivial(); V a; for (int i : x) a.push_back(V{-2, 0, 3, 8}[i]); aliased<double, true>(a, "double"); aliased<float, false>(a, "float"); aliased<int, false>(a, "int"); }); });
    V g = {-2, -0.5, 0, 1, 3.25}; IV gi = {-3, -1, 0, 2, 5};
    for (int n = 1; n <= 3; n++) product(n, 5, [&](const std::vector<int>& x) { kase("point", "points " + str(x), [&] { nontrivial(); V a; for (int i : x) a.push_back(g[i]); single(a); product(n, 5, [&](const std::vector<int>& y) { V b; IV ia, ib; for (int i = 0; i < n; i++) { b.push_back(g[y[i]]); ia.push_back(gi[x[i]]); ib.push_back(gi[y[i]]); } pair(a, b); ints(ia, ib); state(str(a) + str(b)); }); }); });
    for (int n = 3; n <= 5; n++) product(n, n == 5 ? 3 : 5, [&](const std::vector<int>& x) { kase("point", "point " + str(x), [&] { nontrivial(); V a, b; for (int i : x) { a.push_back(g[i]); b.push_back(g[(i * 3 + 1 + b.size()) % 5]); } single(a); pair(a, b); pair(b, a); state(str(a)); }); });
    std::vector<int> sizes; for (int n = 6; n <= (thorough() ? 200 : 80); n++) sizes.push_back(n); for (int n : {127, 128, 129, 255, 256, 257, 300, 1000}) sizes.push_back(n);
    for (int n : sizes) kase("point", "size " + std::to_string(n), [&] { nontrivial(); V a, b; IV ia, ib; for (int i = 0; i < n; i++) { a.push_back(std::sin(i * 2.3) * 4); b.push_back(std::cos(i * 1.1) * 3); ia.push_back((i * 7) % 13 - 6); ib.push_back((i * 5) % 11 - 5); } single(a); pair(a, b); ints(ia, ib); });
    for (int n = 2; n <= 60; n++) kase("linspace", "linspace " + std::to_string(n), [&] { nontrivial(); for (double lo : {-3.0, 0.0, 1.5}) for (double hi : {2.0, 7.25, -4.0}) { auto p = mltk::linspace(lo, hi, n); bool ok = (int)p.size() == n; for (int i = 0; ok && i < n; i++) ok = close(p[i], lo + (hi - lo) * i / (n - 1), 1e-9); expect(ok, "linspace", "linspace(" + num(lo) + "," + num(hi) + "," + std::to_string(n) + ") is " + str(rp(p).x)); } });
    for (int n = 1; n <= 40; n++) kase("random_init", "random_init " + std::to_string(n), [&] { nontrivial(); for (size_t seed : {0, 1, 42}) { P a = mltk::random_init<double>(n, seed), b(n), c = mltk::random_init<double>(-3.0, -1.0, n, seed); mltk::random_init(b, seed); bool ok = (int)a.size() == n && (int)c.size() == n; for (int i = 0; ok && i < n; i++) ok = a[i] >= 0 && a[i] < 1 && b[i] >= 0 && b[i] < 1 && c[i] >= -3 && c[i] < -1; expect(ok, "random_init", "a value is out of the range"); expect(!seed || rp(a).x == rp(b).x, "random_init", "the seed gives other values"); } });
}
