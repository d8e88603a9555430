// C03: parallelize_loop visits every index of the range exactly once and returns only when done.
#include "mc_main.hpp"
#include "ufjfmltk/core/ThreadPool.hpp"
#include <map>
#include <limits>
#include <mutex>
#include <algorithm>
using mltk::ThreadPool;

template <class A, class B> static void loop(unsigned threads, A first, B last, unsigned blocks, bool busy = false) {
    typedef std::common_type_t<A, B> T; long long lo = std::min<long long>((T)first, (T)last), hi = std::max<long long>((T)first, (T)last); long long n = hi - lo;
    std::vector<int> hit(n, 0); std::atomic<int> calls{0}; int other = 0;
    ThreadPool p(threads); if (busy) p.push_task([&] { mc::yield_point(); other++; });
    p.parallelize_loop(first, last, [&](T s, T e) {
        calls++; mc::check((long long)s < (long long)e, "an empty or inverted block was scheduled");
        for (T i = s; i < e; i++) { long long k = (long long)i - lo; mc::check(k >= 0 && k < n, "index " + std::to_string((long long)i) + " outside of the range"); hit[k]++; }
    }, blocks);
    for (long long k = 0; k < n; k++) mc::check(hit[k] == 1, "index " + std::to_string(lo + k) + " visited " + std::to_string(hit[k]) + " times in [" + std::to_string(lo) + "," + std::to_string(hi) + ") with " + std::to_string(blocks) + " blocks when the call returned");
    long long want = std::min<long long>(n, blocks ? blocks : threads); mc::check(calls == want, "range of " + std::to_string(n) + " was split into " + std::to_string(calls) + " blocks instead of " + std::to_string(want));
    p.wait_for_tasks(); if (busy) mc::check(other == 1, "an unrelated task did not run exactly once"); mc::check(p.get_tasks_total() == 0, "tasks left over");
}
// ranges too long to visit: the blocks must follow each other over the whole range
template <class A, class B> static void huge(unsigned threads, A first, B last, unsigned blocks) {
    typedef std::common_type_t<A, B> T; typedef __int128 W; W lo = std::min<W>((T)first, (T)last), hi = std::max<W>((T)first, (T)last); std::vector<std::pair<W, W>> b; std::mutex m; ThreadPool p(threads);
    p.parallelize_loop(first, last, [&](T s, T e) { std::scoped_lock l(m); b.push_back({(W)s, (W)e}); }, blocks);
    std::sort(b.begin(), b.end()); W at = lo; for (auto& x : b) { mc::check(x.first == at && x.second > x.first, "block " + std::to_string((long)x.first) + ".." + std::to_string((long)x.second) + " where " + std::to_string((long)at) + " is next"); at = x.second; } mc::check(at == hi, "the blocks end at " + std::to_string((long)at));
    mc::check(b.size() == (blocks ? blocks : threads), std::to_string(b.size()) + " blocks");
}
static void twice() { int h[4] = {0}; ThreadPool p(2); p.parallelize_loop(0, 2, [&](int s, int e) { for (int i = s; i < e; i++) h[i]++; }); p.parallelize_loop(0, 4, [&](int s, int e) { for (int i = s; i < e; i++) h[i]++; }, 2); mc::check(h[0] == 2 && h[1] == 2 && h[2] == 1 && h[3] == 1, "two consecutive loops"); }
static void concurrent() { int a[2] = {0}, b[2] = {0}; ThreadPool p(2); std::thread t([&] { p.parallelize_loop(0, 2, [&](int s, int e) { for (int i = s; i < e; i++) a[i]++; }); mc::check(a[0] == 1 && a[1] == 1, "concurrent loop A incomplete"); });
    p.parallelize_loop(0, 2, [&](int s, int e) { for (int i = s; i < e; i++) b[i]++; }); mc::check(b[0] == 1 && b[1] == 1, "concurrent loop B incomplete"); t.join(); }
template <class A, class B> static void add(int q, int t, const char* ty, unsigned th, A f, B l, unsigned nb, bool busy = false) { scenario(std::string("loop/") + ty + "/t" + std::to_string(th) + "/" + std::to_string(f) + ".." + std::to_string(l) + "/b" + std::to_string(nb) + (busy ? "/busy" : ""), q, t, [=] { loop(th, f, l, nb, busy); }); }
void register_scenarios() {
    for (unsigned th = 1; th <= 3; th++) for (int f = -3; f <= 3; f++) for (int l = -3; l <= 4; l++) for (unsigned nb = 0; nb <= 5; nb++) add(0, 1, "int", th, f, l, nb);
    for (int n = 5; n <= 33; n++) for (unsigned nb = 0; nb <= 12; nb++) { add(0, 0, "int", 2, 0, n, nb); add(0, 0, "size_t", 3, (size_t)2, (size_t)(n + 2), nb); }
    for (unsigned n : {0u, 1u, 3u, 7u}) for (unsigned nb : {0u, 2u, 3u}) { add(0, 1, "int,size_t", 2, 0, (size_t)n, nb); add(0, 1, "unsigned,int", 2, 5u, (int)(5 - std::min(n, 5u)), nb); add(0, 1, "long,int", 2, -3l, (int)n, nb); add(0, 1, "uchar", 2, (unsigned char)250, (unsigned char)(250 + std::min(n, 5u)), nb); add(0, 1, "char", 2, (signed char)-128, (signed char)(-128 + (int)n), nb);
        add(0, 1, "intmax", 2, std::numeric_limits<int>::max() - (int)n, std::numeric_limits<int>::max(), nb); add(0, 1, "intmin", 2, std::numeric_limits<int>::min(), std::numeric_limits<int>::min() + (int)n, nb); add(0, 1, "ullmax", 2, std::numeric_limits<unsigned long>::max() - n, std::numeric_limits<unsigned long>::max(), nb); }
    for (unsigned th = 1; th <= 2; th++) for (int n = 1; n <= 4; n++) for (unsigned nb : {0u, 1u, 2u, 3u}) add(2, 3, "int", th, 10, 10 + n, nb);
    for (unsigned th = 1; th <= 2; th++) { add(3, 4, "int", th, 0, 2, 2); add(3, 3, "int", th, 0, 3, 0, true); }
    for (unsigned nb : {0u, 1u, 3u, 7u}) for (int q = 0; q < 2; q++) { auto h = [&](const char* n, auto a, auto b) { scenario(std::string("huge/") + n + "/b" + std::to_string(nb) + (q ? "/reversed" : ""), 0, 1, [=] { if (q) huge(2, b, a, nb); else huge(2, a, b, nb); }); };
        h("int", std::numeric_limits<int>::min(), std::numeric_limits<int>::max()); h("int half", -2000000000, 2000000000); h("long", 0l, 10000000000l); h("long all", std::numeric_limits<long>::min() / 2, std::numeric_limits<long>::max() / 2 + 5); h("unsigned", 0u, std::numeric_limits<unsigned>::max()); h("size_t", (size_t)1, std::numeric_limits<size_t>::max()); h("int,long", -5, 30000000000l); h("schar", (signed char)-128, (signed char)127); h("short", (short)-32768, (short)32767); }
    scenario("twice", 2, 3, twice); scenario("concurrent", 2, 3, concurrent);
}
