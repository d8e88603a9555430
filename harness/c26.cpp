// C26: numbers survive their conversion to text and back, and texts are recognised as what they are.
#include "seq.hpp"
#include <algorithm>
#include "ufjfmltk/core/Utils.hpp"
using namespace vf; namespace u = mltk::utils;
static void integer(int n) { std::string e = std::to_string(n), s = u::itos(n); count("integers"); expectf(s == e, "itos", [&] { return "itos(" + e + ") is " + s; }); expectf(u::stoin(e) == n, "stoin", [&] { return "stoin of " + e + " is " + std::to_string(u::stoin(e)); }); expectf(u::atod(e.c_str()) == n, "atod", [&] { return "atod of " + e + " is " + num(u::atod(e.c_str())); }); expectf(u::is_number(e), "is_number", [&] { return e + " is a number"; }); }
static void real(double d) { std::string s = u::dtoa(d); count("reals"); double r = std::strtod(s.c_str(), nullptr), m = std::fabs(d); double tol = m >= 9.9e13 || m < 1.1e-8 || (d < 0 && m >= 9.9e8) ? 2e-8 * m + (m < 1.1e-8 ? 1e-8 : 0) : 1.5e-9 + 1e-14 * m; expectf(std::fabs(r - d) <= tol, "dtoa", [&] { return "dtoa of " + num(d) + " is " + s; }); expectf(s.find_first_not_of("0123456789.+-e") == std::string::npos && s.size() < 32, "dtoa/text", [&] { return "dtoa of " + num(d) + " is " + s; }); expectf(u::is_number(s), "is_number", [&] { return s + " is a number"; }); expectf(close(u::atod(s.c_str()), r, 1e-12), "atod", [&] { return "atod of " + s + " is " + num(u::atod(s.c_str())); }); }
static void text(const std::string& t) { // any text: is_number and atod against the grammar of numbers
    count("texts"); size_t i = 0; auto dig = [&] { size_t n = 0; while (i < t.size() && isdigit((unsigned char)t[i])) i++, n++; return n; }; if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++; size_t a = dig(), b = 0; if (i < t.size() && t[i] == '.') { i++; b = dig(); } bool ok = a + b > 0; if (ok && i < t.size() && t[i] == 'e') { i++; if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++; ok = dig() > 0; } ok = ok && i == t.size();
    expectf(u::is_number(t) == ok, "is_number", [&] { return "is_number(\"" + t + "\") is " + (ok ? "false" : "true"); }); if (ok) { double e = std::strtod(t.c_str(), nullptr), g = u::atod(t.c_str()); expectf(close(e, g, 1e-12), "atod", [&] { return "atod of " + t + " is " + num(g); }); expectf(close(e, u::atod((" \t" + t).c_str()), 1e-12), "atod", [&] { return "atod of blanks and " + t; }); expectf(close(e, u::atod((t + ",5").c_str()), 1e-12), "atod", [&] { return "atod of " + t + " and a comma"; }); } }
static void tokens(const std::string& t, char d) { std::vector<std::string> e; std::string c; for (char x : t + d) if (x == d) { if (!c.empty()) e.push_back(c); c.clear(); } else c += x; count("texts"); auto g = u::tokenize(t, d); expectf(g == e, "tokenize", [&] { return "\"" + t + "\" gives " + str(g) + ", expected " + str(e); }); }
static void trims(const std::string& t) { size_t a = 0, b = t.size(); while (a < b && isspace((unsigned char)t[a])) a++; while (b > a && isspace((unsigned char)t[b - 1])) b--; size_t b2 = t.size(); while (b2 > 0 && isspace((unsigned char)t[b2 - 1])) b2--; std::string x = t, y = t, z = t; u::trim(x); u::ltrim(y); u::rtrim(z); bool ok = x == t.substr(a, b - a) && y == t.substr(a) && z == t.substr(0, b2) && u::trim_copy(t) == x && u::ltrim_copy(t) == y && u::rtrim_copy(t) == z; expectf(ok, "trim", [&] { return "\"" + t + "\" gives \"" + x + "\", \"" + y + "\", \"" + z + "\""; }); count("texts"); }
void vf::run() {
    long R = thorough() ? 100000000 : 2000000, B = R / 400; for (long b = -R; b < R; b += B) kase("integers", "integers from " + std::to_string(b), [&] { nontrivial(); for (long n = b; n < b + B; n++) integer(n); transition(B); });
    kase("integers", "powers", [&] { nontrivial(); for (long p = 1; p < 4000000000l; p *= 10) for (int m = 1; m < 10; m++) for (int o = -2; o <= 2; o++) for (int s = -1; s <= 1; s += 2) { long n = s * (p * m + o); if (n <= INT32_MAX && n >= INT32_MIN) integer(n), transition(); } for (int b = 0; b < 32; b++) for (int o = -2; o <= 2; o++) for (int s = -1; s <= 1; s += 2) { long n = s * ((1l << b) + o); if (n <= INT32_MAX && n >= INT32_MIN) integer(n), transition(); } });
    for (long b = 0; b < 200; b++) kase("integers", "stride " + std::to_string(b), [&] { nontrivial(); for (long n = INT32_MIN + b * 20011; n <= INT32_MAX; n += thorough() ? 199999 : 4000037) integer(n), transition(); });
    std::vector<int> mags; for (int e = -14; e <= 18; e++) mags.push_back(e); for (int e : {-323, -320, -308, -307, -300, -250, -100, -50, -25, 25, 50, 100, 250, 300, 305}) mags.push_back(e); for (int e : mags) for (int s = -1; s <= 1; s += 2) kase("reals", "decimals of magnitude 1e" + std::to_string(e) + (s < 0 ? " negative" : ""), [&] { nontrivial(); for (int m = 1; m < (thorough() ? 100000 : 10000); m++) { char t[40]; snprintf(t, 40, "%d.%de%d", m / 1000 + (m < 1000), m % 1000, e); real(s * std::strtod(t, nullptr)); transition(); } for (int m = 1; m < 400; m++) { real(s * std::pow(10, e) * std::sqrt(m)); real(s * std::nextafter(std::pow(10.0, e), m % 2 ? 0.0 : 1e300)); real(s * std::pow(10.0, e) * (1 - 1.0 / m / m / m / m)); transition(3); } });
    for (int e = -330; e <= 306; e++) kase("reals", "texts of magnitude 1e" + std::to_string(e), [&] { nontrivial(); for (int m = 1; m < 1000; m += 7) for (const char* f : {"%de%d", "0.%de%d", "%d.5e%d", "-%de%d"}) { char t[40]; snprintf(t, 40, f, m, e); double w = std::strtod(t, nullptr), g = u::atod(t); expectf(w == g || std::fabs(w - g) <= 1e-12 * std::fabs(w) + 1e-322, "atod", [&] { return std::string("atod of ") + t + " is " + num(g); }); transition(); } });
    kase("reals", "special", [&] { nontrivial(); real(0.0); real(-0.0); expect(u::dtoa(std::nan("")) == "nan" && u::dtoa(INFINITY) == "inf" && u::dtoa(-INFINITY) == "-inf", "dtoa/special", "nan and infinity"); for (int i = -5000; i <= 5000; i++) { real(i / 8.0); real(i / 100.0); real(i / 3.0); real(i * 1e5 + 0.125); } });
    std::string al = "01.-+e9"; for (int n = 0; n <= (thorough() ? 7 : 6); n++) { if (n < 3) { kase("texts", "texts of length " + std::to_string(n), [&] { nontrivial(); product(n, al.size(), [&](const std::vector<int>& v) { std::string t; for (int i : v) t += al[i]; text(t); transition(); }); }); continue; } product(2, al.size(), [&](const std::vector<int>& p) { kase("texts", "texts of length " + std::to_string(n) + " from " + std::string(1, al[p[0]]) + al[p[1]], [&] { nontrivial(); product(n - 2, al.size(), [&](const std::vector<int>& v) { std::string t{al[p[0]], al[p[1]]}; for (int i : v) t += al[i]; text(t); transition(); }); }); }); }
    for (char c = 1; c < 127; c++) kase("texts", "letter " + std::to_string((int)c), [&] { nontrivial(); std::string ok = "0123456789.+-e "; for (std::string t : {std::string(1, c), std::string("1") + c, c + std::string("1"), std::string("1") + c + "2"}) if (ok.find(c) == std::string::npos) expect(!u::is_number(t), "is_number", "\"" + t + "\" is not a number"); else if (c != ' ') text(t); transition(); });
    for (int n = 0; n <= (thorough() ? 10 : 8); n++) kase("texts", "fields of length " + std::to_string(n), [&] { nontrivial(); product(n, 3, [&](const std::vector<int>& v) { std::string t, w; for (int i : v) { t += "a,b"[i]; w += " x\t"[i]; } tokens(t, ','); tokens(w, ' '); trims(w); transition(); }); });
}
