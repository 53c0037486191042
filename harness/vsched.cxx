// Implementation of the controlled scheduler.  Uses the real primitives, so it must see them unrenamed.
#undef atomic
#undef mutex
#undef shared_mutex
#undef once_flag
#undef call_once
#undef atomic_thread_fence
#undef getpid
#undef time
#undef gethostid
#include "vsched.h"
#include <sys/syscall.h>
#include <unistd.h>
#include <ctime>
namespace vsched {
std::function<pid_t()> pid_hook;
namespace {
struct Th { std::thread t; bool started = false, done = false; std::function<bool()> ready; };
std::mutex m; std::condition_variable cv;
std::vector<Th> *ths = nullptr; Run *run = nullptr;
int current = -1, preemptions = 0, bound = 0; bool aborting = false;
thread_local int me = -1;
struct Aborted {};
// caller holds m; picks who runs next.  self = the thread that just reached a point (or -1)
void choose(int self) {
    std::vector<int> opts;
    auto enabled = [&](int i) { Th &t = (*ths)[i]; return !t.done && (!t.ready || t.ready()); };
    bool self_en = self >= 0 && enabled(self);
    if (self_en) opts.push_back(self);
    if (!self_en || preemptions < bound)
        for (int i = 0; i < (int)ths->size(); ++i) if (i != self && enabled(i)) opts.push_back(i);
    if (opts.empty()) {
        bool all = true; for (auto &t : *ths) all = all && t.done;
        if (!all) { run->deadlock = true; aborting = true; }
        current = -2; cv.notify_all(); return;
    }
    int c = 0;
    if (opts.size() > 1) {
        size_t k = run->points.size();
        if (k < run->prefix.size()) c = run->prefix[k];
        if (c >= (int)opts.size()) c = 0;
        run->points.push_back({(int)opts.size(), c, self_en});
    }
    if (self_en && opts[c] != self) ++preemptions;
    current = opts[c]; ++run->steps; cv.notify_all();
}
void wait_turn(std::unique_lock<std::mutex> &lk) { cv.wait(lk, [&] { return current == me || aborting; }); if (aborting) throw Aborted{}; }
}
void point(char const *) {
    if (me < 0) return;
    std::unique_lock<std::mutex> lk(m);
    choose(me); wait_turn(lk);
}
void block_until(std::function<bool()> ready, char const *) {
    if (me < 0) return;
    std::unique_lock<std::mutex> lk(m);
    if (ready()) return;
    (*ths)[me].ready = ready;
    choose(me); wait_turn(lk);
    (*ths)[me].ready = nullptr;
}
pid_t getpid_() { point("getpid"); return pid_hook ? pid_hook() : (pid_t)syscall(SYS_getpid); }
time_t time_(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
long gethostid_() { return 42; }
bool execute(Run &r, std::vector<std::function<void()>> const &fns, int b) {
    std::vector<Th> T(fns.size());
    { std::unique_lock<std::mutex> lk(m); ths = &T; run = &r; current = -3; preemptions = 0; bound = b; aborting = false; }
    for (size_t i = 0; i < fns.size(); ++i)
        T[i].t = std::thread([&, i] {
            me = (int)i;
            { std::unique_lock<std::mutex> lk(m); T[i].started = true; cv.notify_all();
              cv.wait(lk, [&] { return current == me || aborting; }); if (aborting) { T[i].done = true; me = -1; return; } }
            try { fns[i](); } catch (Aborted &) {}
            std::unique_lock<std::mutex> lk(m);
            T[i].done = true;
            if (!aborting) choose(-1);
            me = -1;
        });
    { std::unique_lock<std::mutex> lk(m); cv.wait(lk, [&] { for (auto &t : T) if (!t.started) return false; return true; }); choose(-1); }
    for (auto &t : T) t.t.join();
    ths = nullptr; run = nullptr;
    return !r.deadlock;
}
}
