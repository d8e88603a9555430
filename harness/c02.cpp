// C02: a submitted task's future yields exactly what the task returned or threw.
#include "mc_main.hpp"
#include "ufjfmltk/core/ThreadPool.hpp"
#include <stdexcept>
using mltk::ThreadPool;
struct Boom : std::runtime_error { int code; Boom(int c) : std::runtime_error("boom"), code(c) {} };

static void values(unsigned threads) {
    ThreadPool p(threads); auto a = p.submit([](int x) { return x * 2; }, 21); auto b = p.submit([](std::string s) { return s + "!"; }, std::string("hey"));
    mc::check(a.get() == 42, "wrong int result"); mc::check(b.get() == "hey!", "wrong string result");
}
static void voids(unsigned threads) {
    int x = 0; ThreadPool p(threads); auto f = p.submit([&x] { mc::yield_point(); x = 7; }); mc::check(f.get(), "future of a void task is false"); mc::check(x == 7, "future became ready before the task finished");
}
static void throws(unsigned threads) {
    ThreadPool p(threads); auto f = p.submit([](int c) -> int { throw Boom(c); }, 5); auto g = p.submit([] { throw Boom(6); }); auto h = p.submit([] { return 3; });
    int code = 0; try { f.get(); } catch (const Boom& e) { code = e.code; } catch (...) { code = -1; } mc::check(code == 5, "exception of a value task was not delivered intact");
    code = 0; try { g.get(); } catch (const Boom& e) { code = e.code; } catch (...) { code = -1; } mc::check(code == 6, "exception of a void task was not delivered intact");
    mc::check(h.get() == 3, "a task after a throwing one was lost"); p.wait_for_tasks(); mc::check(p.get_tasks_total() == 0, "a throwing task is still counted");
}
static void outlive(unsigned threads) {
    std::future<int> f; std::future<bool> g; { ThreadPool p(threads); f = p.submit([] { mc::yield_point(); return 9; }); g = p.submit([] {}); }
    mc::check(f.valid() && f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "future not ready after the pool was destroyed"); mc::check(f.get() == 9 && g.get(), "wrong value after the pool was destroyed");
}
static void dropped() { int x = 0; { ThreadPool p(1); (void)p.submit([&x] { x++; return 1; }); auto k = p.submit([&x] { x++; }); } mc::check(x == 2, "a task whose future was dropped did not run"); }
static void waits() { ThreadPool p(2); auto f = p.submit([] { mc::yield_point(); return 1; }); auto g = p.submit([] { return 2; }); p.wait_for_tasks(); 
    mc::check(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready && g.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "wait_for_tasks returned before a future became ready"); mc::check(f.get() + g.get() == 3, "wrong value"); }
static void paused_() { ThreadPool p(1); p.paused = true; auto f = p.submit([] { return 4; }); mc::check(f.wait_for(std::chrono::seconds(0)) != std::future_status::ready, "task of a paused pool completed"); p.paused = false; mc::check(f.get() == 4, "wrong value after unpausing"); }
static void many(unsigned threads, int n) { ThreadPool p(threads); std::vector<std::future<int>> f; for (int i = 0; i < n; i++) f.push_back(p.submit([](int k) { if (k % 3 == 2) throw k; return k * k; }, i));
    for (int i = 0; i < n; i++) { int r = -1; try { r = f[i].get(); mc::check(i % 3 != 2, "exception lost"); } catch (int k) { mc::check(i % 3 == 2 && k == i, "wrong exception"); r = i * i; } mc::check(r == i * i, "result " + std::to_string(i) + " mixed up"); } }
static void byvalue() { ThreadPool p(1); int v = 1; std::vector<int> w{1, 2, 3}; auto f = p.submit([](int a, std::vector<int> b) { return a + (int)b.size(); }, v, w); v = 100; w.clear(); mc::check(f.get() == 4, "arguments were not captured by value at submission"); }
static void chain() { ThreadPool p(2); auto f = p.submit([&p] { auto g = p.submit([] { return 5; }); return g.get() + 1; }); mc::check(f.get() == 6, "a future obtained inside a task"); }
static void reset_() { ThreadPool p(2); auto f = p.submit([] { mc::yield_point(); return 5; }); auto g = p.submit([] { return 6; }); p.reset(1); mc::check(f.get() == 5 && g.get() == 6, "future lost across reset"); }
static void shared() { ThreadPool p(1); auto f = p.submit([] { return 8; }).share(); int a = 0; std::thread t([&] { a = f.get(); }); int b = f.get(); t.join(); mc::check(a == 8 && b == 8, "shared future"); }
void register_scenarios() {
    scenario("values/1", 3, 4, [] { values(1); }); scenario("values/2", 3, 4, [] { values(2); });
    scenario("voids/1", 3, 4, [] { voids(1); }); scenario("voids/2", 3, 4, [] { voids(2); });
    scenario("throws/1", 3, 4, [] { throws(1); }); scenario("throws/2", 2, 3, [] { throws(2); });
    scenario("outlive/1", 3, 4, [] { outlive(1); }); scenario("outlive/2", 3, 4, [] { outlive(2); });
    scenario("dropped", 3, 4, dropped); scenario("waits", 3, 4, waits); scenario("paused", 3, 4, paused_);
    scenario("many/1x7", 1, 2, [] { many(1, 7); }); scenario("many/3x7", 1, 2, [] { many(3, 7); }); scenario("byvalue", 3, 4, byvalue); scenario("chain", 3, 4, chain); scenario("reset", 2, 3, reset_); scenario("shared", 3, 4, shared);
}
