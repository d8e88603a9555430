// Common main() of the concurrency harnesses: scenario registry, sharding, JSON output.
#pragma once
#include "mc.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <unistd.h>
struct Scenario { std::string name; std::function<void()> body; int quick, thorough; };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
inline void scenario(const std::string& n, int quick, int thorough, std::function<void()> b) { scenarios().push_back({n, b, quick, thorough}); }
void register_scenarios();
static FILE* g_out = nullptr;
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void viol(const std::string& sc, const std::string& msg, const std::vector<int>& ch) {
    std::string c; for (int x : ch) c += (c.empty() ? "" : " ") + std::to_string(x);
    fprintf(g_out, "{\"t\":\"viol\",\"key\":\"%s\",\"case\":\"%s\",\"msg\":\"%s\",\"choices\":\"%s\"}\n", jesc(sc).c_str(), jesc(sc).c_str(), jesc(msg).c_str(), c.c_str());
    fflush(g_out); _exit(1);
}
int main(int argc, char** argv) {
    std::string out, only, choices; int shard = 0, n = 1; bool thorough = false, rep = false;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--out") out = nx(); else if (a == "--shard") { shard = atoi(argv[++i]); n = atoi(argv[++i]); } else if (a == "--thorough") thorough = true; else if (a == "--case") { only = nx(); } else if (a == "--choices") { choices = nx(); rep = true; } }
    g_out = out.empty() ? stdout : fopen(out.c_str(), "w"); mc::on_violation = viol;
    register_scenarios();
    long k = 0;
    for (auto& s : scenarios()) {
        if (!only.empty() && s.name != only) continue;
        if (rep) { std::vector<int> c; std::stringstream ss(choices); int x; while (ss >> x) c.push_back(x); mc::replay(s.name, s.body, c); continue; }
        mc::Options o; o.bound = thorough ? s.thorough : s.quick; if (o.bound < 0) continue; 
        if (o.bound == 0) { if ((k++) % n != shard) continue; } else { o.shard = shard; o.nshards = n; }
        auto r = mc::explore(s.name, s.body, o);
        std::string oc; for (auto& x : r.outcomes) oc += (oc.empty() ? "\"" : ",\"") + jesc(x) + "\"";
        fprintf(g_out, "{\"t\":\"mc\",\"name\":\"%s\",\"bound\":%d,\"executions\":%ld,\"points\":%ld,\"max_points\":%ld,\"traces\":%ld,\"capped\":%s,\"outcomes\":[%s]}\n", jesc(s.name).c_str(), o.bound, r.executions, r.points, r.max_points, r.distinct_traces, r.capped ? "true" : "false", oc.c_str());
        fflush(g_out);
    }
    fprintf(g_out, "{\"t\":\"done\"}\n"); fclose(g_out); return 0;
}
