// Framework of the sequential harnesses: a harness enumerates cases over the real code and compares them
// with a reference model. One process explores one shard of the case list.
//   vf::run()      is defined by the harness and enumerates the cases
//   vf::Case c(..) guards one case
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <fstream>
#include <random>
#include <atomic>
#include <limits>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>

namespace std {  // every std::random_device draws from a fixed sequence, restarted for each case
    inline std::atomic<uint64_t> vf_entropy{0};
}
namespace vf {
void run();
struct State {
    FILE* out = nullptr; bool thorough = false; int shard = 0, nshards = 1; long only = -1, start = 0; long limit_s = 20;
    long idx = -1; std::string desc; bool in_case = false; char* shm = nullptr; 
    long evals = 0, trans = 0; std::unordered_set<uint64_t> states, nontriv; std::vector<std::string> samples; std::map<std::string, int> keys; long fails = 0; bool failed = false; std::map<std::string, long> counters; std::string scratch;
};
inline State S;
inline bool thorough() { return S.thorough; }
inline std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h ^ (h >> 29); }
inline void publish() { std::string t = std::to_string(S.idx) + "\n" + S.desc; if (t.size() > 60000) t.resize(60000); memcpy(S.shm + 4, t.data(), t.size()); *(uint32_t*)S.shm = t.size(); }

// Start the next case. False: this case belongs to another shard.
inline bool begin(const std::string& desc) {
    S.idx++; S.in_case = false; *(uint32_t*)S.shm = 0;
    if (S.only >= 0 ? S.idx != S.only : (S.idx % S.nshards != S.shard || S.idx < S.start)) return false;
    S.desc = desc; S.failed = false; S.in_case = true; std::vf_entropy = 0; publish(); S.evals++;
    if (S.samples.size() < 3 || (S.evals & (S.evals - 1)) == 0) { if (S.samples.size() < 12) S.samples.push_back(desc); }
    struct itimerval it = {{0, 0}, {S.limit_s, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    return true;
}
inline bool begin(std::function<std::string()> d) { // lazily described
    long nxt = S.idx + 1; bool mine = S.only >= 0 ? nxt == S.only : (nxt % S.nshards == S.shard && nxt >= S.start);
    if (!mine) { S.idx++; S.in_case = false; return false; } return begin(d());
}
inline bool mine_next() { long nxt = S.idx + 1; return S.only >= 0 ? nxt == S.only : (nxt % S.nshards == S.shard && nxt >= S.start); }
inline void skip() { S.idx++; S.in_case = false; }
inline void fail(const std::string& key, const std::string& msg) {
    S.fails++; S.failed = true; if (S.keys[key]++ >= 2 || S.keys.size() > 40) return;
    fprintf(S.out, "{\"t\":\"viol\",\"idx\":%ld,\"key\":\"%s\",\"case\":\"%s\",\"msg\":\"%s\"}\n", S.idx, esc(key).c_str(), esc(S.desc).c_str(), esc(msg).c_str()); fflush(S.out);
}
inline bool expect(bool ok, const std::string& key, const std::string& msg) { if (!ok) fail(key, msg); return ok; }
template <class F> inline bool expectf(bool ok, const std::string& key, F msg) { if (!ok) fail(key, msg()); return ok; }
inline void state(const std::string& s) { S.states.insert(hash(s)); }
inline void transition(long n = 1) { S.trans += n; }
inline void nontrivial(const std::string& s) { S.nontriv.insert(hash(s)); }
inline void nontrivial() { S.nontriv.insert(hash(S.desc)); }
inline void count(const std::string& k, long n = 1) { S.counters[k] += n; }
// run f, turning an escaping exception into a violation
template <class F> inline bool guarded(const std::string& key, F f) {
    try { f(); return true; } catch (const std::exception& e) { fail(key + "/exception", std::string("unexpected exception: ") + e.what()); } catch (...) { fail(key + "/exception", "unexpected exception"); } return false;
}
// descend a case: begin + guarded body
template <class F> inline void kase(const std::string& key, const std::string& desc, F f) { if (begin(desc)) guarded(key, f); }

template <class V> inline std::string str(const V& v) { std::ostringstream o; o << "["; size_t i = 0; for (const auto& x : v) o << (i++ ? "," : "") << x; o << "]"; return o.str(); }
inline std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline bool close(double a, double b, double tol = 1e-9) { if (a == b) return true; if (!(a == a) || !(b == b)) return (!(a == a)) && (!(b == b)); return std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b))); }

// all vectors in {0..base-1}^n
template <class F> inline void product(int n, int base, F f) { std::vector<int> v(n, 0); while (true) { f(v); int i = n - 1; while (i >= 0 && ++v[i] == base) v[i--] = 0; if (i < 0) return; } }
// all non-decreasing vectors in {0..base-1}^n
template <class F> inline void multisets(int n, int base, F f) { std::vector<int> v(n, 0); if (!base) return; while (true) { f(v); int i = n - 1; while (i >= 0 && v[i] == base - 1) i--; if (i < 0) return; int x = v[i] + 1; for (; i < n; i++) v[i] = x; } }

inline void on_alarm(int) { const char m[] = "VF-TIMEOUT\n"; (void)!write(2, m, sizeof m - 1); _exit(42); }
inline void on_exit_() { if (S.in_case) { const char m[] = "VF-EXIT: the library ended the process\n"; (void)!write(2, m, sizeof m - 1); _exit(43); } }
inline void finish() {
    setitimer(ITIMER_VIRTUAL, new itimerval{{0, 0}, {0, 0}}, nullptr); S.in_case = false; *(uint32_t*)S.shm = 0;
    fprintf(S.out, "{\"t\":\"sum\",\"cases\":%ld,\"evals\":%ld,\"transitions\":%ld,\"fails\":%ld,\"samples\":[", S.idx + 1, S.evals, S.trans, S.fails);
    for (size_t i = 0; i < S.samples.size(); i++) fprintf(S.out, "%s\"%s\"", i ? "," : "", esc(S.samples[i].substr(0, 400)).c_str());
    fprintf(S.out, "],\"counters\":{"); int k = 0; for (auto& c : S.counters) fprintf(S.out, "%s\"%s\":%ld", k++ ? "," : "", esc(c.first).c_str(), c.second); fprintf(S.out, "}}\n"); 
}
inline void dump(const std::unordered_set<uint64_t>& s, const std::string& f) { FILE* o = fopen(f.c_str(), "wb"); for (auto h : s) fwrite(&h, 8, 1, o); fclose(o); }
} // namespace vf
namespace std { 
    inline random_device::result_type vf_draw() { uint64_t z = (vf_entropy += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return (random_device::result_type)(z ^ (z >> 31)); }
    random_device::result_type random_device::_M_getval() { return vf_draw(); }
}
#ifndef VF_NO_MAIN
int main(int argc, char** argv) {
    using namespace vf; std::string out, cur;
    for (int i = 1; i < argc; i++) { std::string a = argv[i];
        if (a == "--out") out = argv[++i]; else if (a == "--shard") { S.shard = atoi(argv[++i]); S.nshards = atoi(argv[++i]); } else if (a == "--thorough") S.thorough = true; else if (a == "--only") S.only = atol(argv[++i]); else if (a == "--start") S.start = atol(argv[++i]); else if (a == "--limit") S.limit_s = atol(argv[++i]); else if (a == "--scratch") S.scratch = argv[++i]; }
    S.out = out.empty() ? fdopen(dup(1), "w") : fopen(out.c_str(), "a"); cur = out.empty() ? "/dev/null" : out + ".cur";
    if (out.empty()) S.shm = (char*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    else { int fd = open(cur.c_str(), O_RDWR | O_CREAT, 0600); (void)!ftruncate(fd, 1 << 16); S.shm = (char*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
    if (!getenv("VF_VERBOSE")) { std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); std::clog.rdbuf(nullptr); }
    signal(SIGVTALRM, on_alarm); atexit(on_exit_);
    run(); finish();
    if (!out.empty()) { dump(S.states, out + ".states"); dump(S.nontriv, out + ".nontriv"); }
    fprintf(S.out, "{\"t\":\"done\"}\n"); fclose(S.out); fflush(nullptr); _exit(0);
}
#endif
