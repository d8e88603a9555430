// Controlled-scheduler model checker: interface for harnesses.
// Harness code is compiled with -fsanitize=thread but linked against mc_rt.cpp, which implements the
// __tsan_* entry points (and the pthread / sleep / futex calls) itself: fibers + exhaustive,
// deviation-bounded depth-first exploration of schedules + a vector-clock data-race detector.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <cstdint>

namespace mc {

struct Options {
    int bound = 2;            // max deviations from the default schedule per execution
    long max_execs = -1;      // cap (reported if hit)
    int shard = 0, nshards = 1;
};

struct Result {
    long executions = 0;
    long points = 0;          // scheduling points executed, summed over executions
    long max_points = 0;
    bool capped = false;
    long distinct_traces = 0; // distinct (thread, operation) traces
    long distinct_outcomes = 0;
    std::vector<std::string> outcomes;
};

// Explore all schedules of `body` with at most opt.bound deviations. `name` identifies the scenario.
// Reports a violation (and ends the process) when: mc::check fails, a data race, a use after free, a
// deadlock, a livelock, std::terminate, or a fatal signal occurs under any schedule.
Result explore(const std::string& name, const std::function<void()>& body, const Options& opt);
// Re-run one schedule.
void replay(const std::string& name, const std::function<void()>& body, const std::vector<int>& choices);

// inside a body:
void check(bool ok, const std::string& msg);       // property assertion
void outcome(const std::string& s);                // observed outcome of this execution (for reporting)
void yield_point();                                // an explicit scheduling point
int  self();                                       // current fiber id
bool active();

// called when a violation is found: (scenario, message, choices). Must not return.
extern void (*on_violation)(const std::string&, const std::string&, const std::vector<int>&);
}
