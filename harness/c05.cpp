// C05: items printed through a synchronized stream are never interleaved, lost or duplicated.
#include "mc_main.hpp"
#include "ufjfmltk/core/ThreadPool.hpp"
#include <ostream>
#include <algorithm>
#include <set>
struct SlowBuf : std::streambuf { std::vector<char> s; 
    int overflow(int c) override { mc::yield_point(); if (c != EOF) s.push_back((char)c); return c; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { mc::yield_point(); for (std::streamsize i = 0; i < n; i++) s.push_back(p[i]); return n; }
    std::string str() const { return std::string(s.begin(), s.end()); } };
static void lines(int threads, int per) {
    SlowBuf b; std::ostream o(&b); mltk::synced_stream ss(o); std::vector<std::thread> t; std::multiset<std::string> want;
    for (int k = 0; k < threads; k++) for (int i = 0; i < per; i++) want.insert("a" + std::to_string(k) + ":" + std::to_string(i) + "z");
    for (int k = 1; k < threads; k++) t.emplace_back([&ss, k, per] { for (int i = 0; i < per; i++) ss.println("a", k, ":", i, 'z'); });
    for (int i = 0; i < per; i++) ss.println("a", 0, ":", i, 'z'); for (auto& x : t) x.join();
    std::multiset<std::string> got; std::string cur, all = b.str(); for (char c : all) { if (c == '\n') { got.insert(cur); cur.clear(); } else cur += c; }
    mc::check(cur.empty(), "output does not end with a complete line: " + all); mc::check(got == want, "lines were interleaved, lost or duplicated: " + all); mc::outcome(all);
}
static void prints() {
    SlowBuf b; std::ostream o(&b); mltk::synced_stream ss(o); std::thread t([&] { ss.print("<", 1, ">"); }); ss.print("[", 2, "]"); t.join();
    std::string s = b.str(); mc::check(s == "<1>[2]" || s == "[2]<1>", "items of one print call were interleaved: " + s); mc::outcome(s);
}
static void mixed() {
    SlowBuf b; std::ostream o(&b); mltk::synced_stream ss(o); std::thread t([&] { ss.print("<", 1, ">"); ss.println(); }); ss.println("x", 2.5, std::string("y")); t.join(); std::string s = b.str();
    mc::check(s == "<1>\nx2.5y\n" || s == "x2.5y\n<1>\n" || s == "<1>x2.5y\n\n", "items of one call were interleaved: " + s); mc::outcome(s);
}
static void pool() {
    SlowBuf b; std::ostream o(&b); mltk::synced_stream ss(o); { mltk::ThreadPool p(2); for (int i = 0; i < 3; i++) p.push_task([&ss, i] { ss.println("t", i, "."); }); }
    std::string s = b.str(); std::vector<std::string> v; std::string c; for (char ch : s) { if (ch == '\n') { v.push_back(c); c.clear(); } else c += ch; } std::sort(v.begin(), v.end()); mc::check(c.empty() && v == std::vector<std::string>{"t0.", "t1.", "t2."}, "lines printed from pool tasks: " + s); mc::outcome(s);
}
static void throwing() {
    struct Bad {}; SlowBuf b; std::ostream o(&b); o.exceptions(std::ios::badbit); mltk::synced_stream ss(o);
    ss.println("first"); std::thread t([&] { ss.println("in ", 1); }); ss.println("out ", 2); t.join(); std::string s = b.str(); mc::check(s == "first\nin 1\nout 2\n" || s == "first\nout 2\nin 1\n", s); mc::outcome(s);
}
void register_scenarios() {
    scenario("print", 4, 5, prints); scenario("println/2x1", 3, 5, [] { lines(2, 1); }); scenario("println/2x2", 3, 4, [] { lines(2, 2); }); scenario("println/3x1", 3, 4, [] { lines(3, 1); }); scenario("mixed", 4, 5, mixed); scenario("pool", 2, 3, pool); scenario("after_first", 3, 4, throwing);
}
