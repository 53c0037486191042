// Controlled scheduler: real OS threads, exactly one runs at a time, every visible operation is a choice
// point.  A run follows a prefix of choices and then continues without preemption; the recorded choice
// points drive an exhaustive depth-first enumeration of all schedules up to a preemption bound.
#pragma once
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>
#include <cstdint>
namespace vsched {
struct Point { int nopt; int chosen; bool preempt_possible; };   // option 0 = keep running the current thread if it is enabled
struct Run {
    std::vector<int> prefix;      // choices to replay
    std::vector<Point> points;    // choices made
    bool deadlock = false;
    size_t steps = 0;
};
bool execute(Run &run, std::vector<std::function<void()>> const &threads, int preemption_bound);
// next prefix in depth-first order, or false when the space is exhausted
inline bool next_prefix(Run const &r, std::vector<int> &out) {
    std::vector<int> p; for (auto &x : r.points) p.push_back(x.chosen);
    for (size_t i = p.size(); i-- > 0;) {
        if (p[i] + 1 < r.points[i].nopt) { out.assign(p.begin(), p.begin() + i); out.push_back(p[i] + 1); return true; }
    }
    return false;
}
extern std::function<pid_t()> pid_hook;
}
