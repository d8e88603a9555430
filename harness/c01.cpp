// C01: the pool runs every submitted task exactly once; waiting, pausing, resetting and destroying it keep their promises.
#include "mc_main.hpp"
#include "ufjfmltk/core/ThreadPool.hpp"
using mltk::ThreadPool;

static void quiescent(ThreadPool& p, unsigned queued) {
    mc::check(p.get_tasks_queued() == queued, "queued count at quiescence is wrong");
    mc::check(p.get_tasks_running() == 0, "running count at quiescence is not 0");
    mc::check(p.get_tasks_total() == queued, "total count at quiescence is wrong");
}
static void all_once(const int* r, int n, const char* when) { for (int i = 0; i < n; i++) mc::check(r[i] == 1, "task " + std::to_string(i) + " ran " + std::to_string(r[i]) + " times " + when); }

static void basic(unsigned threads, int tasks, unsigned sleep) {
    int ran[8] = {0}; 
    { ThreadPool p(threads); p.sleep_duration = sleep; mc::check(p.get_thread_count() == threads, "thread count");
      for (int i = 0; i < tasks; i++) p.push_task([&ran, i] { ran[i]++; });
      p.wait_for_tasks(); all_once(ran, tasks, "when wait_for_tasks returned"); quiescent(p, 0); }
    all_once(ran, tasks, "after destruction");
}
static void basic_many(unsigned threads, int tasks) {
    std::vector<int> ran(tasks, 0); ThreadPool p(threads);
    for (int i = 0; i < tasks; i++) p.push_task([&ran, i] { ran[i]++; });
    p.wait_for_tasks(); all_once(ran.data(), tasks, "when wait_for_tasks returned"); quiescent(p, 0);
}
static void destroy(unsigned threads, int tasks) {
    int ran[8] = {0}; { ThreadPool p(threads); for (int i = 0; i < tasks; i++) p.push_task([&ran, i] { mc::yield_point(); ran[i]++; }); }
    all_once(ran, tasks, "when the destructor returned");
}
static void rewait(unsigned threads) {
    int ran[4] = {0}; ThreadPool p(threads);
    p.push_task([&] { ran[0]++; }); p.wait_for_tasks(); all_once(ran, 1, "after the first wait"); 
    p.push_task([&] { ran[1]++; }); p.push_task([&] { ran[2]++; }); p.wait_for_tasks(); all_once(ran, 3, "after the second wait"); quiescent(p, 0);
}
static void pause_one(unsigned threads, int before, int after) {
    int ran[8] = {0}; std::atomic<int> started{0}; int n = before + after;
    ThreadPool p(threads);
    for (int i = 0; i < before; i++) p.push_task([&, i] { started++; ran[i]++; });
    p.paused = true;
    p.wait_for_tasks();
    int s = started; mc::check(p.get_tasks_queued() + s == (unsigned)before, "queued + executed != pushed while paused");
    for (int i = before; i < n; i++) p.push_task([&, i] { started++; ran[i]++; });
    mc::yield_point(); mc::yield_point();
    mc::check(started == s, "a task started while the pool was paused and idle");
    quiescent(p, n - s);
    mc::check(started == s, "a task started while the pool was paused and idle");
    p.paused = false; p.wait_for_tasks(); all_once(ran, n, "after unpausing"); quiescent(p, 0);
    mc::outcome("ran_before_pause=" + std::to_string(s));
}
static void reset_pool(unsigned t1, unsigned t2, bool paused) {
    int ran[8] = {0}; ThreadPool p(t1); if (paused) p.paused = true;
    for (int i = 0; i < 2; i++) p.push_task([&ran, i] { mc::yield_point(); ran[i]++; });
    p.reset(t2); mc::check(p.get_thread_count() == t2, "thread count after reset"); mc::check(p.paused == paused, "reset changed the paused flag");
    if (paused) { mc::check(ran[0] + ran[1] == 0, "reset ran tasks of a paused pool"); quiescent(p, 2); }
    p.push_task([&ran] { ran[2]++; });
    p.paused = false; p.wait_for_tasks(); all_once(ran, 3, "after reset and wait"); quiescent(p, 0);
}
static void nested(unsigned threads) {
    int ran[4] = {0}; ThreadPool p(threads);
    p.push_task([&] { ran[0]++; p.push_task([&] { ran[1]++; p.push_task([&] { ran[2]++; }); }); });
    p.wait_for_tasks(); all_once(ran, 3, "when wait_for_tasks returned (tasks that submit tasks)"); quiescent(p, 0);
}
static void producers() {
    int ran[4] = {0}; ThreadPool p(1);
    std::thread a([&] { p.push_task([&] { ran[0]++; }); p.push_task([&] { ran[1]++; }); });
    p.push_task([&] { ran[2]++; }); p.push_task([&] { ran[3]++; });
    a.join(); p.wait_for_tasks(); all_once(ran, 4, "with two producers"); quiescent(p, 0);
}
static void two_waiters() {
    int ran[2] = {0}; ThreadPool p(1);
    for (int i = 0; i < 2; i++) p.push_task([&ran, i] { ran[i]++; });
    std::thread a([&] { p.wait_for_tasks(); all_once(ran, 2, "when a second thread's wait returned"); });
    p.wait_for_tasks(); all_once(ran, 2, "when wait returned"); a.join();
}
static void fifo() {
    std::vector<int> order; ThreadPool p(1); for (int i = 0; i < 4; i++) p.push_task([&order, i] { order.push_back(i); });
    p.wait_for_tasks(); mc::check(order == std::vector<int>{0, 1, 2, 3}, "a one-thread pool did not run tasks in submission order");
}
static void args() {
    int a = 0, b = 0; ThreadPool p(2); int v = 5; p.push_task([&a](int x, int y) { a = x * 10 + y; }, v, 7); p.push_task([&b](std::string s) { b = (int)s.size(); }, std::string("abc")); v = 6;
    p.wait_for_tasks(); mc::check(a == 57 && b == 3, "arguments were not passed by value at submission");
}
static void destroy_paused() {
    int ran[2] = {0}; { ThreadPool p(2); p.paused = true; for (int i = 0; i < 2; i++) p.push_task([&ran, i] { ran[i]++; }); }
    mc::check(ran[0] + ran[1] == 0, "destroying a paused pool ran a queued task");
}
static void pause_nested() {
    int done = 0; std::atomic<int> begun{0}; ThreadPool p(1); bool fin = false;
    p.push_task([&] { begun = 1; p.push_task([&] { done++; }); mc::yield_point(); fin = true; });
    while (!begun) std::this_thread::yield();
    p.paused = true; p.wait_for_tasks();
    mc::check(fin, "wait_for_tasks on a paused pool returned while a task was still running"); int d = done; quiescent(p, 1 - d); mc::yield_point(); mc::check(done == d, "a task started while the pool was paused and idle"); mc::outcome("done=" + std::to_string(d));
    p.paused = false; p.wait_for_tasks(); mc::check(done == 1, "task submitted by a task ran exactly once"); quiescent(p, 0);
}
static void set_interval() { int ran[2] = {0}; ThreadPool p(2); p.push_task([&] { ran[0]++; }); p.sleep_duration = 0; p.push_task([&] { ran[1]++; }); p.sleep_duration = 50; p.wait_for_tasks(); all_once(ran, 2, "when the polling interval is changed"); }
static void counters() {
    ThreadPool p(2); std::atomic<bool> go{false}; std::atomic<int> in{0};
    p.push_task([&] { in++; while (!go) std::this_thread::yield(); }); p.push_task([&] { in++; while (!go) std::this_thread::yield(); }); p.push_task([] {});
    while (in != 2) std::this_thread::yield();
    mc::check(p.get_tasks_queued() == 1, "queued count while both threads are busy"); mc::check(p.get_tasks_running() == 2, "running count while both threads are busy"); mc::check(p.get_tasks_total() == 3, "total count while both threads are busy");
    go = true; p.wait_for_tasks(); quiescent(p, 0);
}
void register_scenarios() {
    scenario("fifo", 3, 4, fifo);
    scenario("basic/1x2", 4, 5, [] { basic(1, 2, 1000); });
    scenario("basic/2x3", 3, 4, [] { basic(2, 3, 1000); });
    scenario("basic/2x2/yield", 3, 4, [] { basic(2, 2, 0); });
    scenario("basic/3x4", 3, 4, [] { basic(3, 4, 1000); });
    scenario("destroy/1x2", 3, 5, [] { destroy(1, 2); });
    scenario("destroy/2x3", 3, 4, [] { destroy(2, 3); });
    scenario("destroy/2x0", 3, 4, [] { destroy(2, 0); });
    scenario("rewait/1", 3, 4, [] { rewait(1); });
    scenario("rewait/2", 3, 4, [] { rewait(2); });
    scenario("pause/1/1+1", 4, 5, [] { pause_one(1, 1, 1); });
    scenario("pause/2/2+1", 3, 4, [] { pause_one(2, 2, 1); });
    scenario("pause/2/3+0", 3, 4, [] { pause_one(2, 3, 0); });
    scenario("reset/2to1", 3, 4, [] { reset_pool(2, 1, false); });
    scenario("reset/1to3", 2, 3, [] { reset_pool(1, 3, false); });
    scenario("reset/2to2/paused", 3, 4, [] { reset_pool(2, 2, true); });
    scenario("nested/1", 3, 4, [] { nested(1); });
    scenario("nested/2", 3, 4, [] { nested(2); });
    scenario("producers", 3, 4, producers);
    scenario("two_waiters", 3, 4, two_waiters);
    scenario("args", 3, 4, args);
    scenario("destroy_paused", 3, 4, destroy_paused);
    scenario("pause_nested", 4, 5, pause_nested);
    scenario("set_interval", 3, 4, set_interval);
    scenario("basic/4x10", 1, 2, [] { basic_many(4, 10); });
    scenario("basic/1x40", 1, 1, [] { basic_many(1, 40); });
    scenario("default_threads", 2, 3, [] { int r = 0; ThreadPool p(0); mc::check(p.get_thread_count() >= 1, "a default pool has no thread"); p.push_task([&] { r++; }); p.wait_for_tasks(); all_once(&r, 1, "on a default-sized pool"); });
    scenario("counters", 3, 4, counters);
}
